"""Refinement of the environments (reset, step, dynamics, rewards, termination, spaces), of the wrappers of external simulators and of their
observation and action maps against sa/specs/envs.py, angles.py, frames.py, w_*.py, mujoco_.py, pybullet_.py."""
from ..rl import *
from ..spec import *

MIN_OBLIGATIONS = 150
R = 'environment'
E = 'mushroom_rl.environments.'
SHIP = dict(policy=Policy(opaque=['normalize_angle', '_bound', '_through_gate']))
OPQ = dict(policy=Policy(opaque=['__init__', '_create_info_dictionary', '_add_joint', '_create_observation']))


def check(ctx):
    auto(ctx, R, 'angles')
    auto(ctx, R, 'envs', opts={'ShipSteering.step': SHIP})
    auto(ctx, R, 'angles3d')
    auto(ctx, R, 'frames')
    auto(ctx, R, 'e_airmj', opts={'BallInACup.__init__': OPQ, 'AirHockeyDouble.__init__': OPQ})
    auto(ctx, R, 'e_airpb', opts={'AirHockeyDouble.__init__': OPQ, 'AirHockeyDoubleBullet.__init__': OPQ})
    auto(ctx, R, 'w_sims')
    for spec, mod in (('w_gym', 'gym_env'), ('w_gymnasium', 'gymnasium_env'), ('w_atari', 'atari'), ('w_gatari', 'gymnasium_atari'), ('w_dmc', ''), ('mujoco_', 'mujoco'), ('pybullet_', 'pybullet')):
        auto(ctx, R, spec, module=mod and E + mod)
