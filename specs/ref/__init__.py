from pyscal.core import Atom, System
from pyscal.trajectory import Trajectory
