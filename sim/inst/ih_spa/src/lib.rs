simcore::heap_instance!(simcore::items::Spa);
