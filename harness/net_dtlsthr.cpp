/* C45: the DTLS networks with a receiving and a sending task */
#define TASKS
#include "net_dtls.cpp"
/* the receiving task takes an event of device 0 or of a new one while the sending task sends to devices 0 and 1 */
static SensorNetwork* net; static uint8_t rb[8]; static int rr, w0, w1; static int d0, d1;
static void receiver(void*) { rr = net->read(rb, 8); }
static void senders(void*) { uint8_t p[3] = { 3, 0x17, 0 }; int a = net->unicast(p, 3, known[1]); w1 = a == 3; d1 = wrote_dev; p[2] = 1; wrotes = 0; a = net->unicast(p, 3, known[0]); w0 = a == 3; d0 = wrotes ? wrote_dev : 0; }
static void tasks(void) {
  net = make(2); net->initialize(); opened = 1; for (int i = 0; i < ND; i++) { known[i] = new SensorNetAddress; is(known[i], i); } for (int d = 0; d < 2; d++) { hs_dev = d; hs_listen = hs_accept = 1; uint8_t b[8]; net->read(b, 8); dev[d].conn = 1; *known[d] = *net->getSenderAddress(); }
  int ev = sym_pick(0, 3, "event"); if (ev == 0) dev[0].left = 1; else if (ev == 1) dev[0].hello = 1; else if (ev == 2) { dev[0].n = 1; dev[0].b[0] = sym_u8("packet"); } else mc_on = 1, mc_n = 1;
  int t1 = sym_thread(receiver, 0), t2 = sym_thread(senders, 0); sym_join(t1); sym_join(t2); A(w1 && d1 == 1, "a packet is not sent to its device while another leaves"); A(d0 == 0 && (ev < 2 || w0), "a packet is sent to another device while its own leaves"); if (ev < 2) dev[0].conn = 0; else A(rr == 1, "a packet is lost"); settled(); sym_reach(w0 ? "both sent" : "one sent"); sym_reach("end"); }
extern "C" void sym_main(void) { tasks(); }
