#!/bin/sh
# Nothing to build: the checks are Python and import flavio from /repo.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -B -W ignore -c "
import flavio, os
assert os.path.realpath(flavio.__file__).startswith('/repo/'), flavio.__file__
print('flavio', flavio.__version__, 'from', flavio.__file__)"
