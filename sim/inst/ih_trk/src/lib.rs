simcore::heap_instance!(simcore::items::Trk);
