// Embree 3 names that the code uses, on top of the installed Embree 4 headers:
// declarations only, for type-checking.
#pragma once
#include <embree4/rtcore.h>
struct RTCIntersectContext : RTCRayQueryContext
{
    unsigned flags;
    RTCFilterFunctionN filter;
};
#define RTC_INTERSECT_CONTEXT_FLAG_COHERENT 1
#define RTC_SCENE_FLAG_CONTEXT_FILTER_FUNCTION RTC_SCENE_FLAG_FILTER_FUNCTION_IN_ARGUMENTS
void rtcInitIntersectContext(RTCIntersectContext *);
void rtcIntersect1M(RTCScene, RTCIntersectContext *, RTCRayHit *, unsigned, size_t);
void rtcOccluded1M(RTCScene, RTCIntersectContext *, RTCRay *, unsigned, size_t);
