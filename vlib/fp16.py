"""Lets torch's gradient scaler work on the CPU."""


def patch_torch():
    """Gradient scaling is a no-op without CUDA: let it believe in this CPU."""
    from torch.amp.grad_scaler import GradScaler

    if getattr(GradScaler, "_verif", False):
        return
    orig = GradScaler.__init__

    def init(self, device="cuda", *a, **k):
        orig(self, "cpu", *a, **k)

    GradScaler.__init__ = init
    GradScaler._verif = True
