# Sourced by every check.
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 HF_DATASETS_OFFLINE=1
export HF_HUB_DISABLE_TELEMETRY=1 WANDB_MODE=offline TOKENIZERS_PARALLELISM=false
export CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
unset FAIRSEQ2_ASSET_DIR FAIRSEQ2_USER_ASSET_DIR FAIRSEQ2_CACHE_DIR FAIRSEQ2_EXTENSION_TRACE FAIRSEQ2_NO_PROGRESS
export PYTHONPATH="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/lib"
PY=/opt/venv/bin/python
