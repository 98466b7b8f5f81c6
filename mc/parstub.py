"""A model whose fit finishes when the script says so (for parallel fitting)."""
import os
import time
import torch


class Ordered:
    """Waits for the file of its predecessor, then finishes and leaves its own file."""

    def __init__(self, name, folder, after=None, fail=False):
        self.name, self.folder, self.after, self.fail = name, folder, after, fail
        self.fits, self.seen, self.opts, self.threads = 0, None, None, None

    def fit(self, train_data, device="cuda", **kw):
        self.fits += 1
        self.seen = (float(torch.nan_to_num(train_data, nan=-5.).sum()), tuple(train_data.shape))
        self.opts = dict(kw, device=device)
        self.threads = torch.get_num_threads()
        if self.after is not None:
            t = time.time()
            while not os.path.exists(os.path.join(self.folder, f"done-{self.after}")) and time.time() - t < 20:
                time.sleep(0.004)
        open(os.path.join(self.folder, f"done-{self.name}"), "w").close()
        if self.fail:
            raise RuntimeError(f"fit of {self.name} fails")
