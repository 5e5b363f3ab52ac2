#ifndef SHIM_MRI_POSIX4WIN_H_
#define SHIM_MRI_POSIX4WIN_H_
#endif
