#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
typedef unsigned int DWORD; typedef int BOOL; typedef void* HANDLE; typedef long long LONGLONG;
typedef union { struct { DWORD LowPart; int HighPart; }; LONGLONG QuadPart; } LARGE_INTEGER;
typedef struct { void* BaseAddress; void* AllocationBase; DWORD AllocationProtect; size_t RegionSize; DWORD State, Protect, Type; } MEMORY_BASIC_INFORMATION;
typedef struct { DWORD dwPageSize; DWORD dwAllocationGranularity; } SYSTEM_INFO;
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define GENERIC_READ 0x80000000u
#define GENERIC_WRITE 0x40000000u
#define OPEN_EXISTING 3
#define CREATE_ALWAYS 2
#define OPEN_ALWAYS 4
#define CREATE_NEW 1
#define TRUNCATE_EXISTING 5
#define FILE_SHARE_READ 1
#define FILE_SHARE_WRITE 2
#define FILE_SHARE_DELETE 4
#define FILE_ATTRIBUTE_NORMAL 0x80
#define CP_UTF8 65001
#define MB_ERR_INVALID_CHARS 8
#define ERROR_FILE_NOT_FOUND 2
#define ERROR_ACCESS_DENIED 5
#define ERROR_FILE_EXISTS 80
#define ERROR_ALREADY_EXISTS 183
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_RELEASE 0x8000
#define MEM_RESET 0x80000
#define PAGE_READWRITE 4
#define STD_INPUT_HANDLE ((DWORD)-10)
#define STD_OUTPUT_HANDLE ((DWORD)-11)
#define STD_ERROR_HANDLE ((DWORD)-12)
#define ERROR_TOO_MANY_OPEN_FILES 4
#define ERROR_INVALID_HANDLE 6
#define ERROR_HANDLE_EOF 38
#define ERROR_DISK_FULL 112
#define ERROR_NO_UNICODE_TRANSLATION 1113
#define ERROR_IO_DEVICE 1117
#define ERROR_INVALID_PARAMETER 87
#define ERROR_INVALID_NAME 123
#define FILE_BEGIN 0
#define FILE_CURRENT 1
#define FILE_END 2
#define FILE_APPEND_DATA 4
#define INVALID_SET_FILE_POINTER ((DWORD)-1)
#define INVALID_FILE_ATTRIBUTES ((DWORD)-1)
#define MEM_DECOMMIT 0x4000
#define MEM_FREE 0x10000
#define PAGE_NOACCESS 1
#define TRUE 1
#define FALSE 0
#define WINAPI
BOOL GetFileSizeEx(HANDLE,LARGE_INTEGER*);
DWORD GetFileSize(HANDLE,DWORD*);
BOOL FlushFileBuffers(HANDLE);
BOOL SetEndOfFile(HANDLE);
BOOL DeleteFileW(const wchar_t*);
BOOL MoveFileExW(const wchar_t*,const wchar_t*,DWORD);
DWORD GetFileAttributesW(const wchar_t*);
void SetLastError(DWORD);
void Sleep(DWORD);
int MultiByteToWideChar(unsigned,DWORD,const char*,int,wchar_t*,int);
BOOL SetFilePointerEx(HANDLE,LARGE_INTEGER,LARGE_INTEGER*,DWORD);
BOOL ReadFile(HANDLE,void*,DWORD,DWORD*,void*);
BOOL WriteFile(HANDLE,const void*,DWORD,DWORD*,void*);
BOOL CloseHandle(HANDLE);
HANDLE CreateFileW(const wchar_t*,DWORD,DWORD,void*,DWORD,DWORD,HANDLE);
DWORD GetLastError(void);
HANDLE GetStdHandle(DWORD);
void* VirtualAlloc(void*,size_t,DWORD,DWORD);
BOOL VirtualFree(void*,size_t,DWORD);
size_t VirtualQuery(const void*,MEMORY_BASIC_INFORMATION*,size_t);
void GetSystemInfo(SYSTEM_INFO*);
void ExitProcess(unsigned) __attribute__((noreturn));
void* _aligned_malloc(size_t,size_t); void _aligned_free(void*);
BOOL QueryPerformanceFrequency(LARGE_INTEGER*); BOOL QueryPerformanceCounter(LARGE_INTEGER*);
}
