#!/bin/sh
# Nothing has to be built: this makes sure that the checks can run at all
cd "$(dirname "$0")" && mkdir -p evidence replays && \
  exec "${DST_PYTHON:-/opt/venv/bin/python}" -c "
from dst import boot
boot.load()
import cdtools, h5py, matplotlib
print('ready:', cdtools.__file__)"
