from builtins import *
Exception = Exception
