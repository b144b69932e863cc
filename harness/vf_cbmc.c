unsigned long vf_last;
