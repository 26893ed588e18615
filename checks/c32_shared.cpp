// C32: names resolved by several threads at once. The resolver functions that share one result are what they are in the C
// library: a use of that result while another thread resolves is a race, and gives the other's address.
#include "common.h"
#include "ds.h"
#include "Sockets.h"
#include <string.h>
#include <memory>
using namespace pbt; using ds::Quiet;
namespace {
const char *names[] = { "host.test", "other.test", "third.test", "no.such.host", "10.1.2.3", "192.168.0.255" };
const uint32_t addrs[] = { 0x0a010203, 0xc0a80001, 0x7f000005, 0, 0x0a010203, 0xc0a800ff };
bool lookup(const char *n, uint32_t &a) { for (int i=0;i<6;i++) if (!strcmp(n,names[i])) { a = addrs[i]; return a!=0; } return false; }
struct Box { char *list[2]; uint32_t be; char *none[1]; };
void fill(struct hostent *h, Box *b, uint32_t a) { b->be = htonl(a); b->list[0] = (char*)&b->be; b->list[1] = 0; b->none[0] = 0; h->h_name = (char*)"x"; h->h_aliases = b->none; h->h_addrtype = AF_INET; h->h_length = 4; h->h_addr_list = b->list; }
struct hostent gShared; Box gBox;
}
extern "C" {
struct hostent *__wrap_gethostbyname(const char *n) { uint32_t a; ds::point(); gBox.be = 0; if (!lookup(n,a)) { h_errno = HOST_NOT_FOUND; return 0; } fill(&gShared,&gBox,a); ds::point(); return &gShared; }
struct hostent *__wrap_gethostbyname2(const char *n, int) { return __wrap_gethostbyname(n); }
int __wrap_gethostbyname_r(const char *n, struct hostent *r, char *buf, size_t len, struct hostent **out, int *e) { uint32_t a; ds::point(); *out = 0; *e = HOST_NOT_FOUND; if (len<sizeof(Box)+16) return ERANGE; if (!lookup(n,a)) return 0; Box *b = (Box*)(((uintptr_t)buf+15)&~15ul); fill(r,b,a); *out = r; *e = 0; ds::point(); return 0; }
int __wrap_gethostbyname2_r(const char *n, int, struct hostent *r, char *buf, size_t len, struct hostent **out, int *e) { return __wrap_gethostbyname_r(n,r,buf,len,out,e); }
}
PTEST(resolvers, 20000) {
	int nt = 2+src.draw(3); struct Op { int name; unsigned port; bool text; }; std::vector<std::vector<Op> > progs(nt); unsigned total = 0;
	for (auto &p : progs) { size_t n = 1+src.draw(4); total += n; for (size_t i=0;i<n;i++) p.push_back({ (int)src.draw(6), 1+(unsigned)src.draw(60000), src.coin() }); }
	ds::Opt opt; opt.accessPoints = src.coin(); memset(&gShared,0,sizeof gShared); memset(&gBox,0,sizeof gBox);
	ds::run(src,[&]{
		for (int t=0;t<nt;t++) { std::vector<Op> p = progs[t]; ds::spawn([p]{ for (auto &o : p) {
			struct sockaddr_in in; memset(&in,0,sizeof in); std::string text; { Quiet q; text = std::string(names[o.name])+":"+std::to_string(o.port); NOTE("thread " << ds::self() << " resolves " << text); }
			bool r = o.text ? resolveAddress(&in,text.c_str()) : resolveAddress(&in,names[o.name],o.port);
			Quiet q; PCHECK(r==(addrs[o.name]!=0),"resolve","resolving " << names[o.name] << " returned " << r);
			if (r) PCHECK(in.sin_family==AF_INET && ntohl(in.sin_addr.s_addr)==addrs[o.name] && ntohs(in.sin_port)==o.port,"resolve","resolving " << names[o.name] << " port " << o.port << " gave " << std::hex << ntohl(in.sin_addr.s_addr) << std::dec << " port " << ntohs(in.sin_port)); } }); }
		ds::joinAll(); },opt);
	if (total>2) src.nontrivial();
}
