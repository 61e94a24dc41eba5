// Reads the vtu files that deal.II writes.
#pragma once
#include <zlib.h>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vtu {

inline std::string unbase64(const std::string& s) {
	std::string r;
	unsigned v = 0;
	int bits = 0;
	for (unsigned char ch : s) {
		int k;
		if (ch >= 'A' && ch <= 'Z')
			k = ch - 'A';
		else if (ch >= 'a' && ch <= 'z')
			k = ch - 'a' + 26;
		else if (ch >= '0' && ch <= '9')
			k = ch - '0' + 52;
		else if (ch == '+')
			k = 62;
		else if (ch == '/')
			k = 63;
		else
			continue;
		v = v << 6 | k;
		bits += 6;
		if (bits >= 8) {
			bits -= 8;
			r += (char) (v >> bits & 255);
		}
	}
	return r;
}

struct File {
	size_t points = 0, cells = 0;
	std::vector<double> position;                      // 3 per point
	std::map<std::string, std::vector<double> > field; // scalars
};

inline std::string attribute(const std::string& tag, const std::string& name) {
	size_t i = tag.find(name + "=\"");
	if (i == std::string::npos)
		return "";
	i += name.size() + 2;
	return tag.substr(i, tag.find('"', i) - i);
}

inline std::vector<double> numbers(const std::string& tag, const std::string& body) {
	std::vector<double> r;
	const std::string type = attribute(tag, "type");
	if (attribute(tag, "format") == "ascii") {
		std::istringstream i(body);
		double x;
		while (i >> x)
			r.push_back(x);
		return r;
	}
	// four numbers, then the compressed block; both base64 on their own
	std::string b;
	for (char ch : body)
		if (!isspace((unsigned char) ch))
			b += ch;
	std::string head = unbase64(b.substr(0, 24));
	uint32_t h[4];
	if (head.size() < 16)
		throw std::runtime_error("vtu: no header");
	memcpy(h, head.data(), 16);
	std::string z = unbase64(b.substr(24));
	std::string raw(h[1], 0);
	uLongf size = raw.size();
	if (h[0] != 1 || uncompress((Bytef*) &raw[0], &size, (const Bytef*) z.data(), h[3]) != Z_OK || size != raw.size())
		throw std::runtime_error("vtu: cannot uncompress");
	if (type == "Float32")
		for (size_t i = 0; i + 4 <= raw.size(); i += 4) {
			float x;
			memcpy(&x, &raw[i], 4);
			r.push_back(x);
		}
	else if (type == "Float64")
		for (size_t i = 0; i + 8 <= raw.size(); i += 8) {
			double x;
			memcpy(&x, &raw[i], 8);
			r.push_back(x);
		}
	return r;
}

inline File read(const std::string& name) {
	std::ifstream in(name, std::ios::binary);
	std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
	File f;
	size_t p = s.find("<Piece");
	if (p == std::string::npos)
		throw std::runtime_error("vtu: no piece in " + name);
	std::string piece = s.substr(p, s.find('>', p) - p);
	f.points = std::stoul(attribute(piece, "NumberOfPoints"));
	f.cells = std::stoul(attribute(piece, "NumberOfCells"));
	size_t pts = s.find("<Points>"), data = s.find("<PointData");
	for (size_t i = s.find("<DataArray", p); i != std::string::npos; i = s.find("<DataArray", i + 1)) {
		size_t e = s.find('>', i), z = s.find("</DataArray>", e);
		std::string tag = s.substr(i, e - i);
		if (attribute(tag, "type").substr(0, 5) != "Float")
			continue;
		std::vector<double> v = numbers(tag, s.substr(e + 1, z - e - 1));
		if (i > pts && (data < pts || i < data) && f.position.empty())
			f.position = v;
		else
			f.field[attribute(tag, "Name")] = v;
	}
	return f;
}
}
