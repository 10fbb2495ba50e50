#include <embree4/rtcore_ray.h>
