"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import pathlib
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
text = (ROOT / 'DESIGN.md').read_text()
mark = 'was first missed, the note says what was added.\n'
head = text[:text.index(mark)] + mark + '\n'
table = subprocess.run([sys.executable, str(ROOT / 'tools/seeded_table.py')], capture_output=True, text=True, check=True).stdout
(ROOT / 'DESIGN.md').write_text(head + table)
