fn lock_m<T>(m: &Mutex<T>, block: bool) -> Option<MutexGuard<'_, T>> {
    if block {
        Some(m.lock().unwrap_or_else(|e| e.into_inner()))
    } else {
        match m.try_lock() {
            Ok(g) => Some(g),
            Err(TryLockError::Poisoned(e)) => Some(e.into_inner()),
            Err(_) => None,
        }
    }
}
fn lock_w<T>(m: &RwLock<T>, block: bool) -> Option<RwLockWriteGuard<'_, T>> {
    if block {
        Some(m.write().unwrap_or_else(|e| e.into_inner()))
    } else {
        match m.try_write() {
            Ok(g) => Some(g),
            Err(TryLockError::Poisoned(e)) => Some(e.into_inner()),
            Err(_) => None,
        }
    }
}
fn lock_r<T>(m: &RwLock<T>, block: bool) -> Option<RwLockReadGuard<'_, T>> {
    if block {
        Some(m.read().unwrap_or_else(|e| e.into_inner()))
    } else {
        match m.try_read() {
            Ok(g) => Some(g),
            Err(TryLockError::Poisoned(e)) => Some(e.into_inner()),
            Err(_) => None,
        }
    }
}
/// Panic while holding the lock.
fn poison<T>(lock: impl FnOnce() -> Option<T>) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if let Some(_g) = lock() {
            rt::probe(oracle::P_POISONED);
            rt::count_fault(oracle::K_POISON);
            oracle::panic_now();
        }
    }));
}
