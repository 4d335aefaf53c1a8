"""Rewrite the table of seeded changes in DESIGN.md."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = []
    folder = os.path.join(HERE, 'seeded')
    for name in sorted(os.listdir(folder)):
        with open(os.path.join(folder, name, 'meta.json')) as file_:
            meta = json.load(file_)
        rows.append((meta['property'], name, meta['what_it_breaks']))
    lines = ['| check | seeded change | what it breaks |', '|---|---|---|']
    lines += ['| {} | {} | {} |'.format(*row) for row in sorted(rows)]
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as file_:
        text = file_.read()
    text = re.sub(r'(<!-- seeded -->\n).*(<!-- /seeded -->)',
                  lambda m: m.group(1) + '\n'.join(lines) + '\n' + m.group(2),
                  text, flags=re.S)
    with open(path, 'w') as file_:
        file_.write(text)


main()
