// Databases for the checks: shared in-memory sqlite databases with a harness connection beside the one(s) the code
// under test opens, so that contents can be inspected, changed from outside, locked, and survive a close and reopen.
#ifndef CFG_H
#define CFG_H
#include "common.h"
#include "Configuration.h"
#include "Utils.h"
#include <sqlite3.h>
namespace cfg {
struct Db {
	sqlite3 *h;              // the harness's connection
	std::string name;        // what the code under test is given
	Db(bool shared=false);   // shared: its connections share one cache, so that they lock each other out table by table
	~Db();                   // closes everything opened since construction
	void exec(const char *fmt, ...);      // sqlite3_mprintf format; fails the case if refused
	bool tryExec(const char *fmt, ...);
	std::vector<std::vector<std::string> > rows(const std::string &sql);  // NULL appears as "\1NULL"
	// Close the connections the code under test opened since construction; fails if it left a statement open.
	void closeOthers(const char *sig="statement-left-open");
	size_t nothers();
private:
	size_t base;
	Db(const Db&);
};
std::string keyText(pbt::Src &src);        // NUL-free, mostly from a small colliding family
std::string valueText(pbt::Src &src);
}
#endif
