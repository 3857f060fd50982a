simcore::heap_instance!(simcore::items::Pad);
