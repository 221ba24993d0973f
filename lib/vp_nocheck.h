/* Included by stand-ins and harnesses whose own memory accesses are not the subject. */
#ifdef VP_CBMC
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "pointer-overflow"
#pragma CPROVER check disable "pointer-primitive"
#pragma CPROVER check disable "div-by-zero"
#pragma CPROVER check disable "undefined-shift"
#pragma CPROVER check disable "conversion"
#endif
