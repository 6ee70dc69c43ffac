#!/bin/bash
# Build the Python package from /repo's current working tree, outside /repo.
# Output: /verif/build/py-<hash>/src ; prints that path on stdout.
set -eu
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${TRV_REPO:-/repo}"
B="$VERIF/build"
mkdir -p "$B"
list() { (cd "$REPO" && find src deploy/pkg/pyproject setup.py README.md -type f ! -name '*.so' ! -name '*.pyc' ! -path '*.egg-info/*' 2>/dev/null | while read -r f; do case "$f" in src/triumvirate/*.cpp) case "${f#src/triumvirate/}" in */*) echo "$f";; esac;; *) echo "$f";; esac; done | LC_ALL=C sort); }
H=$( (cd "$REPO"; list | tr '\n' '\0' | xargs -0 sha256sum; cd "$VERIF"; sha256sum bin/build_python.sh) | sha256sum | cut -c1-20)
OUT="$B/py-$H"
exec 9>"$B/.pylock"; flock 9
if [ -f "$OUT/ok" ]; then touch "$OUT"; echo "$OUT/src"; exit 0; fi
ls -1dt "$B"/py-* 2>/dev/null | tail -n +2 | while read -r d; do case "$d" in "$B"/py-*) rm -rf "$d";; esac; done
rm -rf "$OUT"; mkdir -p "$OUT"
(cd "$REPO" && list | tar -c -T - ) | tar -x -C "$OUT"
export HOME="${HOME:-/root}" LANG=C.UTF-8 TZ=UTC CXX="${TRV_CXX:-g++}"
export PATH=/opt/venv/bin:/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 SETUPTOOLS_SCM_PRETEND_VERSION=0.5.0
export CYTHON_FORCE_REGEN=1 PY_BUILD_PARALLEL=-j8 OPENBLAS_NUM_THREADS=1
# the compiler cache is used as a private one (none is needed)
export CCACHE_DIR="$B/ccache" CCACHE_MAXSIZE=400M CCACHE_BASEDIR="$OUT" CCACHE_NOHASHDIR=1
cd "$OUT"
cp deploy/pkg/pyproject/.pyproject.toml pyproject.toml
if ! python setup.py build_clib build_ext --inplace --force >build.log 2>&1; then
  tail -40 build.log >&2; cd /; rm -rf "$OUT"; exit 3
fi
rm -rf build src/triumvirate/*.cpp
touch ok
echo "$OUT/src"
