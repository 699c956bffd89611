"""Advantage estimators and sequence construction."""
import torch
import numpy as np


def montecarlo(V, s, ss, r, absorbing, gamma):
    r = r.squeeze()
    q = torch.zeros(len(r))
    v = V(s).squeeze()
    q_next = V(ss[-1]).squeeze().item()
    for rev_k in range(len(r)):
        k = len(r) - rev_k - 1
        q_next = r[k] + gamma * q_next * (1 - absorbing[k])
        q[k] = q_next
    return q[:, None], (q - v)[:, None]


def one_step(V, s, ss, r, absorbing, gamma):
    v = V(s).squeeze()
    q = r + gamma * (1 - absorbing) * V(ss).squeeze()
    return q[:, None], (q - v)[:, None]


def gae(V, s, ss, r, absorbing, last, gamma, lam):
    v = V(s)
    v_next = V(ss)
    adv = torch.empty_like(v)
    for rev_k in range(len(v)):
        k = len(v) - rev_k - 1
        if last[k] or rev_k == 0:
            adv[k] = r[k] - v[k]
            if not absorbing[k]:
                adv[k] = adv[k] + gamma * v_next[k]
        else:
            adv[k] = r[k] + gamma * v_next[k] - v[k] + gamma * lam * adv[k + 1]
    return adv + v, adv


def gae_recurrent(V, s, pi_h, ss, pi_hn, lengths, r, absorbing, last, gamma, lam):
    v = V(s, pi_h, lengths)
    v_next = V(ss, pi_hn, lengths)
    adv = torch.empty_like(v)
    for rev_k in range(len(v)):
        k = len(v) - rev_k - 1
        if last[k] or rev_k == 0:
            adv[k] = r[k] - v[k]
            if not absorbing[k]:
                adv[k] = adv[k] + gamma * v_next[k]
        else:
            adv[k] = r[k] + gamma * v_next[k] - v[k] + gamma * lam * adv[k + 1]
    return adv + v, adv
