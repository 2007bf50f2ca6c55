#!/bin/bash
# trybug.sh ID [PROP]: apply a planted bug to /repo, run its check, undo.
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
cd /verif && /opt/venv/bin/python -m vc.run $p 2>&1 | cut -c1-400 | tail -${3:-6}
git -C /repo checkout -- .
