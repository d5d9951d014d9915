"""Link flags that put the scheduler (vsched.cpp) under the library and the standard library."""
_W = ['pthread_create', 'pthread_join', 'pthread_detach', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock',
      'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_clockwait', 'pthread_cond_signal', 'pthread_cond_broadcast',
      'poll', 'read', 'write', 'accept', 'clock_gettime', 'nanosleep', 'clock_nanosleep', 'sched_yield',
      '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort']
LINK = ['-static-libstdc++', '-Wl,' + ','.join('--wrap=' + w for w in _W)]
