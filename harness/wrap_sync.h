// pthread locks and waits of everything linked into a program with -Wl,--wrap=pthread_mutex_lock,... pass through here
#pragma once
namespace syncw {
void off();
// kinds of points: 4 before locking, 5 after unlocking, 6 before waiting; only locks on the heap (the nodes', not the stand-ins')
extern bool longWaits;  // waits of a second and more are made a minute longer, so that a lost wake-up shows
}
