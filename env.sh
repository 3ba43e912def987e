export HOME=/root LANG=${LANG:-C.UTF-8} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MKL_NUM_THREADS=1 OMP_NUM_THREADS=1
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= LITELLM_LOCAL_MODEL_COST_MAP=True HF_HUB_OFFLINE=1
