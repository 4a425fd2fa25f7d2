// Independent (harness side) datafile formatting and parsing.
#pragma once
#include <string>
#include <vector>
inline std::string dfpairline(const std::string &k, const std::string &v) { return "#pair  \"" + k + "\"\t\"" + v + "\""; }
struct DfRec { std::string kind; std::vector<std::string> toks; };
struct DfFile {
	bool start = false, end = false;	// header line first, footer line last, newline terminated
	std::vector<DfRec> recs;
	std::vector<std::string> lines;
	// value of the last pair with this key
	bool get(const std::string &k, std::string &v) const {
		bool f = false;
		for (auto &r : recs)
			if (r.kind == "pair" && r.toks.size() == 2 && r.toks[0] == k) { v = r.toks[1]; f = true; }
		return f;
	}
	double num(const std::string &k, double dflt = -12345) const { std::string v; return get(k, v) ? atof(v.c_str()) : dflt; }
	int npairs(const std::string &k) const {
		int n = 0;
		for (auto &r : recs) n += r.kind == "pair" && r.toks.size() >= 1 && r.toks[0] == k;
		return n;
	}
	std::vector<std::vector<std::string>> rows(const std::string &name) const {
		std::vector<std::vector<std::string>> o;
		for (auto &r : recs)
			if (r.kind == "altrow" && r.toks.size() && r.toks[0] == name)
				o.push_back(std::vector<std::string>(r.toks.begin() + 1, r.toks.end()));
		return o;
	}
	std::vector<std::string> cols(const std::string &name) const {
		for (auto &r : recs)
			if (r.kind == "altcols" && r.toks.size() && r.toks[0] == name)
				return std::vector<std::string>(r.toks.begin() + 1, r.toks.end());
		return {};
	}
};
inline DfFile dfparse(const std::string &s) {
	DfFile f;
	size_t i = 0;
	bool nl = false;
	while (i < s.size()) {
		size_t j = s.find('\n', i);
		nl = j != std::string::npos;
		if (!nl) j = s.size();
		std::string l = s.substr(i, j - i);
		f.lines.push_back(l);
		i = j + 1;
		if (l.size() < 2 || l[0] != '#') continue;
		size_t k = 1;
		while (k < l.size() && isalpha((unsigned char) l[k])) k++;
		DfRec r;
		r.kind = l.substr(1, k - 1);
		if (r.kind != "pair" && r.kind != "altcols" && r.kind != "altrow") continue;
		while (k < l.size()) {
			if (isspace((unsigned char) l[k])) { k++; continue; }
			if (l[k] == '"') {
				size_t e = l.find('"', k + 1);
				if (e == std::string::npos) { r.kind = "BAD"; break; }
				r.toks.push_back(l.substr(k + 1, e - k - 1));
				k = e + 1;
			} else {
				size_t e = k;
				while (e < l.size() && !isspace((unsigned char) l[e])) e++;
				r.toks.push_back(l.substr(k, e - k));
				k = e;
			}
		}
		f.recs.push_back(r);
	}
	f.start = f.lines.size() && f.lines[0] == "#start data file format 4";
	f.end = nl && f.lines.size() && f.lines.back() == "#end data file format 4";
	return f;
}
