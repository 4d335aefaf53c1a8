"""Helpers for storages in files."""
import gc
import os
import shutil

EXTENSIONS = ('.h5', '.npz', '.mat')
BACKENDS = ('inmem', 'hdf5', 'npz', 'mat')
BACKEND_OF = {'.h5': 'hdf5', '.hdf5': 'hdf5', '.npz': 'npz', '.mat': 'mat'}
EXT_OF = {'hdf5': '.h5', 'npz': '.npz', 'mat': '.mat'}


def end_session():
    """Close all files, like ending the process would."""
    from .run import close_hdf5
    close_hdf5()


def storage_path(scratch, backend, name='a'):
    if backend == 'inmem':
        return '::inmem::'
    return os.path.join(scratch, name + EXT_OF[backend])


def read_bytes(path):
    with open(path, 'rb') as file_:
        return file_.read()


def listing(folder):
    """Every file and directory below folder, with the files' content."""
    out = {}
    for root, dirs, names in os.walk(folder):
        for name in dirs:
            out[os.path.relpath(os.path.join(root, name), folder)] = None
        for name in names:
            path = os.path.join(root, name)
            out[os.path.relpath(path, folder)] = read_bytes(path)
    return out


def copy_of(path, suffix='copy'):
    """A copy of the file as it is on disk now, next to the original."""
    base, ext = os.path.splitext(path)
    target = '{}_{}{}'.format(base, suffix, ext)
    shutil.copyfile(path, target)
    return target
