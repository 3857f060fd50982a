simcore::heap_instance!(u32);
