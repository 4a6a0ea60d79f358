// Declarations of the CUDA runtime API that Apollo's timer uses (static analysis only).
#ifndef STUB_CUDA_RUNTIME_H
#define STUB_CUDA_RUNTIME_H
typedef struct CUevent_st *cudaEvent_t;
typedef struct CUstream_st *cudaStream_t;
enum cudaError { cudaSuccess = 0, cudaErrorNotReady = 600 };
typedef enum cudaError cudaError_t;
#define cudaEventDefault 0x00
extern "C" {
cudaError_t cudaEventCreateWithFlags(cudaEvent_t *event, unsigned int flags);
cudaError_t cudaEventCreate(cudaEvent_t *event);
cudaError_t cudaEventDestroy(cudaEvent_t event);
cudaError_t cudaEventRecord(cudaEvent_t event, cudaStream_t stream = 0);
cudaError_t cudaEventQuery(cudaEvent_t event);
cudaError_t cudaEventSynchronize(cudaEvent_t event);
cudaError_t cudaEventElapsedTime(float *ms, cudaEvent_t start, cudaEvent_t end);
const char *cudaGetErrorString(cudaError_t error);
}
#endif
