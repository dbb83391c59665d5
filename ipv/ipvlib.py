import z3
from engine import *
from exe import *
from exe import fabs, SQRT, LOG, POW, EXP
import exe
from verify import *
import models as M
import stl
from models import BASE, ret, rd, wr, Max, Min
import ir
