from .mt import *
