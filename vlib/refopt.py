"""Float64 reference optimizer (published formulas), one state per key."""
import math

import numpy as np


class RefOpt:
    """kind: sgd | adam | radam.  hyper: dict name -> function(step) -> float."""

    def __init__(self, kind, hyper, l2_decay):
        self.kind, self.h, self.l2_decay = kind, hyper, l2_decay
        self.step = 0
        self.state = {}

    def __call__(self, key, w, g, lr_scale=1.0):
        s = self.step
        lr, l2, clip = self.h["learn_rate"](s), self.h["L2"](s), self.h["grad_clip"](s)
        b1, b2, eps = self.h["beta1"](s), self.h["beta2"](s), self.h["eps"](s)
        w = np.asarray(w, dtype="f8").copy()
        g = np.asarray(g, dtype="f8").copy()
        if g.size == 0:
            return w, g
        st = self.state.setdefault(key, {"t": 0, "m": np.zeros(g.shape), "v": np.zeros(g.shape), "avg": np.zeros(g.shape)})
        st["t"] += 1
        t = st["t"]
        if l2 and not self.l2_decay:
            g = g + l2 * w
        if clip:
            norm = math.sqrt(float((g * g).sum()))
            if norm > clip:
                g = g * (clip / norm)
        if self.kind == "radam":
            st["v"] = b2 * st["v"] + (1 - b2) * g * g
            st["m"] = b1 * st["m"] + (1 - b1) * g
            rho_inf = 2 / (1 - b2) - 1
            rho = rho_inf - 2 * t * b2**t / (1 - b2**t)
            mhat = st["m"] / (1 - b1**t)
            if rho >= 5:
                r = math.sqrt((rho - 4) * (rho - 2) * rho_inf / ((rho_inf - 4) * (rho_inf - 2) * rho))
                # published: sqrt((1 - b2^t) / v), with eps added to sqrt(v)
                w = w - lr * lr_scale * r * mhat * math.sqrt(1 - b2**t) / (np.sqrt(st["v"]) + eps)
            else:
                w = w - lr * lr_scale * mhat
        elif b1 > 0 and b2 > 0:
            st["m"] = b1 * st["m"] + (1 - b1) * g
            st["v"] = b2 * st["v"] + (1 - b2) * g * g
            a = lr * lr_scale * math.sqrt(1 - b2**t) / (1 - b1**t)
            w = w - a * st["m"] / (np.sqrt(st["v"]) + eps)
        else:
            w = w - lr * lr_scale * g
        if l2 and self.l2_decay:
            w = w - lr_scale * lr * l2 * w
        d = min((1 + t) / (10 + t), 0.9999)
        st["avg"] = st["avg"] - (1 - d) * (st["avg"] - w)
        return w, np.zeros(g.shape)
