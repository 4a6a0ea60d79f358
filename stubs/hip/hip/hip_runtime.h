// Declarations of the HIP runtime API that Apollo's timer uses (static analysis only).
#ifndef STUB_HIP_RUNTIME_H
#define STUB_HIP_RUNTIME_H
typedef struct ihipEvent_st *hipEvent_t;
typedef struct ihipStream_st *hipStream_t;
enum hipError { hipSuccess = 0, hipErrorNotReady = 600 };
typedef enum hipError hipError_t;
#define hipEventDefault 0x00
extern "C" {
hipError_t hipEventCreateWithFlags(hipEvent_t *event, unsigned int flags);
hipError_t hipEventCreate(hipEvent_t *event);
hipError_t hipEventDestroy(hipEvent_t event);
hipError_t hipEventRecord(hipEvent_t event, hipStream_t stream = 0);
hipError_t hipEventQuery(hipEvent_t event);
hipError_t hipEventSynchronize(hipEvent_t event);
hipError_t hipEventElapsedTime(float *ms, hipEvent_t start, hipEvent_t end);
const char *hipGetErrorString(hipError_t error);
}
#endif
