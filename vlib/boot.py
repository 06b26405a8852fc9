"""Makes `import ot` mean: Python sources of /repo's working tree + freshly built extensions."""
import glob
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Native(importlib.abc.MetaPathFinder):
    def __init__(self, dirs):
        self.map = {}
        for d in dirs:
            for so in glob.glob(f"{d}/ot/*/*.so"):
                rel = os.path.relpath(so, d).split(".")[0].replace("/", ".")
                self.map[rel] = so

    def find_spec(self, name, path=None, target=None):
        so = self.map.get(name)
        if so is None:
            return None
        return importlib.util.spec_from_file_location(
            name, so, loader=importlib.machinery.ExtensionFileLoader(name, so))


def boot(native_dirs, backends=()):
    for lib, flag in (("torch", "PYTORCH"), ("jax", "JAX"), ("tf", "TENSORFLOW"), ("cupy", "CUPY")):
        key = f"POT_BACKEND_DISABLE_{flag}"
        if lib in backends:
            os.environ.pop(key, None)
        else:
            os.environ[key] = "1"
    for p in (os.path.join(ROOT, ".deps"), ROOT, os.path.join(ROOT, "vlib"), "/repo"):
        if p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [ROOT, os.path.join(ROOT, "vlib"), os.path.join(ROOT, ".deps"), "/repo"]
    sys.meta_path.insert(0, Native(native_dirs))
    warnings.simplefilter("ignore")
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    # the real stdout is the protocol channel: whatever the library prints goes to /dev/null
    import ot
    assert ot.__file__.startswith("/repo/ot/"), ot.__file__
    import ot.lp.emd_wrap as e
    assert any(e.__file__.startswith(d) for d in native_dirs), e.__file__
    if "torch" in backends:
        import torch
        torch.set_num_threads(1)
    if "jax" in backends:
        import jax
        jax.config.update("jax_enable_x64", True)  # (as the test suite does)
    if "tf" in backends:
        import tensorflow as tf
        tf.config.threading.set_intra_op_parallelism_threads(1)
        tf.config.threading.set_inter_op_parallelism_threads(1)
        from tensorflow.python.ops.numpy_ops import np_config
        np_config.enable_numpy_behavior()
    warnings.simplefilter("ignore")
    return ot
