/* Switch points inside of the compiled code: the extension is compiled with -fsanitize-coverage=trace-pc, so
 * __sanitizer_cov_trace_pc is called at the start of every basic block.  A block is a switch point if it runs in
 * the watched thread without the interpreter lock (with the lock no other thread can run).  Before block number
 * mc_stop the thread lets the other one run and waits until it is told to go on. */
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
extern int PyGILState_Check(void);
static volatile int armed, stopped;
static volatile long count, stop_at;
static pthread_t target;
static sem_t turn, back;

void mc_gil_init(void) { sem_init(&turn, 0, 0); sem_init(&back, 0, 0); }
/* called by the thread to be watched */
void mc_gil_arm(long stop) {
    count = 0; stop_at = stop; stopped = 0; target = pthread_self();
    while (sem_trywait(&turn) == 0) ;
    while (sem_trywait(&back) == 0) ;
    armed = 1;
}
void mc_gil_disarm(void) { armed = 0; sem_post(&turn); }
long mc_gil_count(void) { return count; }
int mc_gil_wait(void) { sem_wait(&turn); return stopped; }     /* other thread: 1 = the watched thread is stopped */
void mc_gil_go_on(void) { sem_post(&back); }

void __sanitizer_cov_trace_pc(void) {
    if (!armed || !pthread_equal(pthread_self(), target) || PyGILState_Check()) return;
    if (count++ == stop_at) {
        struct timespec t;
        armed = 0; stopped = 1;
        sem_post(&turn);
        clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 10;
        sem_timedwait(&back, &t);      /* the other thread may be waiting for something that this one holds */
    }
}
