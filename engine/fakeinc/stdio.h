#include "Python.h"
