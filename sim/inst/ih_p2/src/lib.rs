simcore::heap_instance!(simcore::items::P2);
