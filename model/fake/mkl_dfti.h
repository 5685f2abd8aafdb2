/* the part of Intel MKL's DFTI interface that the library uses, backed by the 1d transform model */
#ifndef VP_MKL_H
#define VP_MKL_H
#ifdef __cplusplus
extern "C" {
#endif
typedef long MKL_LONG; typedef struct vp_fftplan DFTI_DESCRIPTOR; typedef DFTI_DESCRIPTOR *DFTI_DESCRIPTOR_HANDLE;
enum DFTI_CONFIG_VALUE { DFTI_SINGLE = 35, DFTI_DOUBLE = 36, DFTI_COMPLEX = 32, DFTI_REAL = 33, DFTI_INPLACE = 43, DFTI_NOT_INPLACE = 44 };
enum DFTI_CONFIG_PARAM { DFTI_NUMBER_OF_TRANSFORMS = 7, DFTI_PLACEMENT = 11, DFTI_INPUT_DISTANCE = 14, DFTI_OUTPUT_DISTANCE = 15, DFTI_FORWARD_SCALE = 4, DFTI_BACKWARD_SCALE = 5 };
MKL_LONG DftiCreateDescriptor(DFTI_DESCRIPTOR_HANDLE *, enum DFTI_CONFIG_VALUE, enum DFTI_CONFIG_VALUE, MKL_LONG, ...);
MKL_LONG DftiSetValue(DFTI_DESCRIPTOR_HANDLE, enum DFTI_CONFIG_PARAM, ...);
MKL_LONG DftiCommitDescriptor(DFTI_DESCRIPTOR_HANDLE);
MKL_LONG DftiComputeForward(DFTI_DESCRIPTOR_HANDLE, void *, ...);
MKL_LONG DftiComputeBackward(DFTI_DESCRIPTOR_HANDLE, void *, ...);
MKL_LONG DftiFreeDescriptor(DFTI_DESCRIPTOR_HANDLE *);
#ifdef __cplusplus
}
#endif
#endif
