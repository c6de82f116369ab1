// the host's header asks for an x86 calling convention
#pragma once
#include_next <bits/pthreadtypes-arch.h>
#undef __cleanup_fct_attribute
#define __cleanup_fct_attribute
