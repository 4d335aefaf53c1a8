"""Write the table of costs in DESIGN.md from the evidence of the last runs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
START, END = '<!-- costs -->', '<!-- end of costs -->'


def main():
    rows = []
    for path in sorted(glob.glob(os.path.join(HERE, 'evidence', 'C*.json'))):
        with open(path) as file_:
            data = json.load(file_)
        rows.append('| {} | {} | {} | {:.0f} |'.format(
            data['property'], data['coverage']['evaluations'],
            data['coverage']['distinct_nontrivial'], data['wall_s']))
    half = (len(rows) + 1) // 2
    lines = ['| check | cases | distinct non-trivial | s ' * 2 + '|',
             '| --- ' * 8 + '|']
    for idx in range(half):
        other = rows[half + idx] if half + idx < len(rows) else '| | | | |'
        lines.append(rows[idx].rstrip('|') + other)
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as file_:
        text = file_.read()
    head, rest = text.split(START)
    tail = rest.split(END)[1]
    with open(path, 'w') as file_:
        file_.write('\n'.join([head + START] + lines + [END + tail]))


main()
