simcore::heap_instance!(simcore::items::Big);
