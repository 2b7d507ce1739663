#!/bin/bash
# Usage: check.sh <PROPERTY> <quick|thorough> [--replay FILE]
# Runs the property-based check of one property against /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
VERIF_DIR=$PWD
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} LANG=C.UTF-8
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONPATH=$VERIF_DIR:$VERIF_DIR/stubs:$REPO:/opt/vp/support:$VERIF_DIR/vendor
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0 NO_GCE_CHECK=true
export VERIF_SEED=${VERIF_SEED:-1}
id=$1; tier=${2:-quick}; shift; shift
export VERIF_TIER=$tier
exec /opt/venv/bin/python -m vlib.main "$id" "$tier" "$@"
