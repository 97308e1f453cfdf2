"""Makes fairseq2 importable from the working directory (a checkout of the repository)."""
import logging
import os
import sys
import types
import warnings

REPO = os.getcwd()
sys.dont_write_bytecode = True
for p in (REPO + "/src", REPO + "/native/python/src", os.path.dirname(os.path.abspath(__file__))):
    sys.path.insert(0, p)
import torch

m = types.ModuleType("fairseq2n.config")
m._TORCH_VERSION, m._TORCH_VARIANT = torch.__version__, "CPU-only"
m._SUPPORTS_IMAGE = m._SUPPORTS_CUDA = False
m._CUDA_VERSION = None
sys.modules["fairseq2n.config"] = m
import fairseq2n

fairseq2n.DOC_MODE = True
warnings.filterwarnings("ignore")
logging.disable(logging.ERROR)
import fairseq2
import fairseq2.recipe

assert fairseq2.__file__.startswith(REPO), fairseq2.__file__
