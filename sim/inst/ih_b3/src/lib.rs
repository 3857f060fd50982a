simcore::heap_instance!(simcore::items::B3);
