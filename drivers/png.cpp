#include "visualizer_png.h"
namespace drv {
	using U8 = std::uint8_t;
	using U32 = std::uint32_t;
	Color c0() {return Color();}
	Color c1(U32 x) {return Color(x);}
	Color c2(U32 x, U8 a) {return Color(x, a);}
	Color c3(U8 r, U8 g, U8 b) {return Color(r, g, b);}
	Color c4(U8 r, U8 g, U8 b, U8 a) {return Color(r, g, b, a);}
	U8 lit(unsigned long long v) {return operator "" _c(v);}
	U8 get(const Color& c, std::size_t i) {return c[i];}
	void set(Color& c, std::size_t i, U8 v) {c[i] = v;}
	U8 part(U8 r, U8 g, U8 b, U8 a, std::size_t i) {return Color(r, g, b, a)[i];}
	bool eq(const Color& a, const Color& b) {return a == b;}
	bool ne(const Color& a, const Color& b) {return a != b;}
	Color add(const Color& a, const Color& b) {return a + b;}
	Color sub(const Color& a, const Color& b) {return a - b;}
	Color& addto(Color& a, const Color& b) {return a += b;}
	Color& subto(Color& a, const Color& b) {return a -= b;}
	Color mul(const Color& a, Real f) {return a * f;}
	Color lmul(Real f, const Color& a) {return f * a;}
	Color& multo(Color& a, Real f) {return a *= f;}
	Color mix(const Color& a, const Color& b, Real f) {return lerp(a, b, f);}
	Color over(const Color& lower, const Color& upper) {return blend(lower, upper);}
	bool peq(const Point& a, const Point& b) {return a == b;}
	bool pne(const Point& a, const Point& b) {return a != b;}

	void clear(PNG& p, Integer w, Integer h, Color c) {p.clear(w, h, c);}
	void wipe(PNG& p, Integer w, Integer h) {p.clear(w, h);}
	void put(PNG& p, Integer x, Integer y, Color c) {p(x, y) = c;}
	Color pick(const PNG& p, Integer x, Integer y) {return p(x, y);}
	Integer width(const PNG& p) {return p.width();}
	Integer height(const PNG& p) {return p.height();}
	void rect(PNG& p, const Point& a, const Point& b, const Color& c, const Color& d) {p.fillRectangle(a, b, c, d);}
	void rect_blend(PNG& p, const Point& a, const Point& b, const Color& c, const Color& d) {p.fillRectangle<BLEND>(a, b, c, d);}
	void rect_add(PNG& p, const Point& a, const Point& b, const Color& c, const Color& d) {p.fillRectangle<ADD>(a, b, c, d);}
	void rect_sub(PNG& p, const Point& a, const Point& b, const Color& c, const Color& d) {p.fillRectangle<SUBTRACT>(a, b, c, d);}
	void box(PNG& p, const Point& a, const Point& b, const Color& c) {p.fillRectangle(a, b, c);}
	void box_blend(PNG& p, const Point& a, const Point& b, const Color& c) {p.fillRectangle<BLEND>(a, b, c);}
	void box_add(PNG& p, const Point& a, const Point& b, const Color& c) {p.fillRectangle<ADD>(a, b, c);}
	void box_sub(PNG& p, const Point& a, const Point& b, const Color& c) {p.fillRectangle<SUBTRACT>(a, b, c);}
	void flood(PNG& p, const Point& a, const Color& c) {p.floodFill(a, c);}
	void flood_blend(PNG& p, const Point& a, const Color& c) {p.floodFill<BLEND>(a, c);}
	void flood_add(PNG& p, const Point& a, const Color& c) {p.floodFill<ADD>(a, c);}
	void flood_sub(PNG& p, const Point& a, const Color& c) {p.floodFill<SUBTRACT>(a, c);}
	void line(PNG& p, const Point& a, const Point& b, const Color& c) {p.drawLine(a, b, c);}
	void line_blend(PNG& p, const Point& a, const Point& b, const Color& c) {p.drawLine<BLEND>(a, b, c);}
	void line_add(PNG& p, const Point& a, const Point& b, const Color& c) {p.drawLine<ADD>(a, b, c);}
	void line_sub(PNG& p, const Point& a, const Point& b, const Color& c) {p.drawLine<SUBTRACT>(a, b, c);}
	PNG anon() {return PNG();}
	PNG named(const std::string& s) {return PNG(s);}
	void write(const PNG& p) {p.write();}
	void scope(const std::string& s, Integer w, Integer h, Color c) {PNG p(s); p.clear(w, h, c);}
	void copied(PNG& a, const PNG& b) {a = b;}
	void moved(PNG& a, PNG& b) {a = std::move(b);}
	void start(int argc, char** argv) {Visualizer::init(argc, argv);}
	void startdraw(int argc, char** argv) {Visualizer::init(argc, argv); Visualizer::image.clear(1, 1, Color(0x112233)); Visualizer::image.write();}
	Color palette(std::size_t i) {
		switch (i) {
			case 0: return BLACK;
			case 1: return DARKGRAY;
			case 2: return GRAY;
			case 3: return LIGHTGRAY;
			case 4: return WHITE;
			case 5: return TRANSPARENT;
			case 6: return RED;
			case 7: return GREEN;
			case 8: return BLUE;
			case 9: return YELLOW;
			case 10: return MAGENTA;
			default: return CYAN;
		}
	}
}
