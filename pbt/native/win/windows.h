// A stand-in for the parts of windows.h that deal with the protection of memory (C27): see win.cpp.
#ifndef PFU_WINDOWS_H
#define PFU_WINDOWS_H
#include <cstddef>
#include <cstdint>
#include <mutex>
#include <string>
#include <stdexcept>

typedef unsigned int DWORD;
typedef DWORD *PDWORD;
typedef int BOOL;
typedef void *LPVOID;
typedef const void *LPCVOID;
typedef void *HANDLE;
typedef size_t SIZE_T;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define WINAPI
#define PAGE_NOACCESS 0x01
#define PAGE_READONLY 0x02
#define PAGE_READWRITE 0x04
#define PAGE_EXECUTE 0x10
#define PAGE_EXECUTE_READ 0x20
#define PAGE_EXECUTE_READWRITE 0x40
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_DECOMMIT 0x4000
#define MEM_RELEASE 0x8000

typedef struct {
    DWORD dwOemId, dwPageSize;
    LPVOID lpMinimumApplicationAddress, lpMaximumApplicationAddress;
    size_t dwActiveProcessorMask;
    DWORD dwNumberOfProcessors, dwProcessorType, dwAllocationGranularity;
} SYSTEM_INFO;

extern "C" {
BOOL VirtualProtect(LPVOID address, SIZE_T size, DWORD protection, PDWORD old);
LPVOID VirtualAlloc(LPVOID address, SIZE_T size, DWORD type, DWORD protection);
BOOL VirtualFree(LPVOID address, SIZE_T size, DWORD type);
BOOL FlushInstructionCache(HANDLE process, LPCVOID address, SIZE_T size);
HANDLE GetCurrentProcess();
DWORD GetLastError();
void GetSystemInfo(SYSTEM_INFO *info);
}
#endif
