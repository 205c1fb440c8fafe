"""Regenerates seen_literals.json (literals of the committed tree of /repo); run by hand after a fix commit."""
import json
import os
import gen
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seen_literals.json'), 'w', encoding='utf-8') as f:
    json.dump({'ints': gen.MINED_INTS, 'strs': sorted(gen._strs)}, f, ensure_ascii=False, indent=0)
