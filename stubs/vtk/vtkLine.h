#pragma once
#include "vtk_recording.h"
