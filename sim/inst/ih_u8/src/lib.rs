simcore::heap_instance!(u8);
