// Stand-in for the header of the Wolfram LibraryLink SDK.
#pragma once
#include "mathlink.h"
#ifndef DLLEXPORT
#define DLLEXPORT
#endif
typedef long mint;
typedef double mreal;
typedef struct st_WolframLibraryData* WolframLibraryData;
enum { WolframLibraryVersion = 6 };
enum { LIBRARY_NO_ERROR = 0, LIBRARY_TYPE_ERROR, LIBRARY_RANK_ERROR, LIBRARY_DIMENSION_ERROR, LIBRARY_NUMERICAL_ERROR, LIBRARY_MEMORY_ERROR, LIBRARY_FUNCTION_ERROR };
