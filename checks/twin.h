#ifndef TWIN_H
#define TWIN_H
#include "pbt.h"
#include "Configuration.h"
namespace cfg {
// Another text with the same hash (see HashString), or the text itself where there is none: two neighbouring characters
// make up for each other.
inline std::string twin(pbt::Src &src, const std::string &text, const char *without = "") {
	uint64_t h = HashString(text).hash(); if (text.size()<2) return text;
	size_t first = src.draw(text.size()-1);
	for (size_t k=0;k+1<text.size();k++) { size_t i = (first+k)%(text.size()-1);
		for (int d : { 1,-1 }) for (int m : { 127,126,128,31,33,37,65599 }) { std::string t = text; int a = (signed char)t[i]+d, b = (signed char)t[i+1]-d*m;
			if (a<-128 || a>127 || b<-128 || b>127 || !a || !b) continue;
			t[i] = a; t[i+1] = b; if (t.find_first_of(without)==std::string::npos && HashString(t).hash()==h) return t; } }
	return text;
}
}
#endif
