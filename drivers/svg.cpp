#include "visualizer_svg.h"
namespace drv {
	using U8 = std::uint8_t;
	using U32 = std::uint32_t;
	Color c0() {return Color();}
	Color c1(U32 x) {return Color(x);}
	Color cg(U8 x) {return Color(x);}
	Color c3(U8 r, U8 g, U8 b) {return Color(r, g, b);}
	U8 lit(unsigned long long v) {return operator "" _c(v);}
	U8 get(const Color& c, std::size_t i) {return c[i];}
	void set(Color& c, std::size_t i, U8 v) {c[i] = v;}
	U8 part(U8 r, U8 g, U8 b, std::size_t i) {return Color(r, g, b)[i];}
	bool eq(const Color& a, const Color& b) {return a == b;}
	bool ne(const Color& a, const Color& b) {return a != b;}
	Color add(const Color& a, const Color& b) {return a + b;}
	Color sub(const Color& a, const Color& b) {return a - b;}
	Color& addto(Color& a, const Color& b) {return a += b;}
	Color& subto(Color& a, const Color& b) {return a -= b;}
	Color mul(const Color& a, Real f) {return a * f;}
	Color lmul(Real f, const Color& a) {return f * a;}
	Color& multo(Color& a, Real f) {return a *= f;}
	Color mix(const Color& a, const Color& b, Real f) {return lerp(a, b, f);}
	Color palette(std::size_t i) {
		switch (i) {
			case 0: return BLACK;
			case 1: return DARKGRAY;
			case 2: return GRAY;
			case 3: return LIGHTGRAY;
			case 4: return WHITE;
			case 6: return RED;
			case 7: return GREEN;
			case 8: return BLUE;
			case 9: return YELLOW;
			case 10: return MAGENTA;
			default: return CYAN;
		}
	}
	void colour(std::ostream& os, const Color& c) {os << c;}

	// styles: 0 none, 1 fill, 2 stroke, 3 both, 4.. stroke details
	template<typename S>
	S styled(S s, int style, const Color& sc, const Color& fc, Real w) {
		if (style & 1) s.fill = Fill(fc);
		if (style & 2) s.stroke = Stroke(sc, w);
		if (style & 4) s.stroke = Stroke(sc, w, false);
		if (style & 8) s.stroke->linecap = Linecap::BUTT;
		if (style & 16) s.stroke->linecap = Linecap::ROUND;
		if (style & 32) s.stroke->linecap = Linecap::SQUARE;
		if (style & 64) s.stroke->linejoin = Linejoin::ROUND;
		if (style & 128) s.stroke->linejoin = Linejoin::BEVEL;
		if (style & 256) s.stroke->linejoin = Linejoin::MITER;
		return s;
	}
	void rect(std::ostream& os, int style, const Color& a, const Color& b, Real sw, Real x, Real y, Real w, Real h) {os << styled(Rectangle(x, y, w, h), style, a, b, sw);}
	void rect1(std::ostream& os, Real x, Real y, Real w, Real h) {os << Rectangle(Point(x, y), w, h);}
	void rect2(std::ostream& os, Real x, Real y, Real w, Real h) {os << Rectangle(x, y, Dimension(w, h));}
	void rect3(std::ostream& os, Real x, Real y, Real w, Real h) {os << Rectangle(Point(x, y), Dimension(w, h));}
	void circle(std::ostream& os, int style, const Color& a, const Color& b, Real sw, Real x, Real y, Real r) {os << styled(Circle(x, y, r), style, a, b, sw);}
	void circle1(std::ostream& os, Real x, Real y, Real r) {os << Circle(Point(x, y), r);}
	void ellipse(std::ostream& os, int style, const Color& a, const Color& b, Real sw, Real x, Real y, Real r, Real s) {os << styled(Ellipse(x, y, r, s), style, a, b, sw);}
	void ellipse1(std::ostream& os, Real x, Real y, Real r, Real s) {os << Ellipse(Point(x, y), r, s);}
	void line(std::ostream& os, int style, const Color& a, const Color& b, Real sw, Real x, Real y, Real u, Real v) {os << styled(Line(x, y, u, v), style, a, b, sw);}
	void line1(std::ostream& os, Real x, Real y, Real u, Real v) {os << Line(Point(x, y), Point(u, v));}
	void polygon(std::ostream& os, int style, const Color& a, const Color& b, Real sw, const std::vector<Point>& p) {os << styled(Polygon(p), style, a, b, sw);}
	void polygon1(std::ostream& os, Real x, Real y, Real u, Real v) {os << Polygon({Point(x, y), Point(u, v)});}
	void polyline(std::ostream& os, int style, const Color& a, const Color& b, Real sw, const std::vector<Point>& p) {os << styled(Polyline(p), style, a, b, sw);}
	void polyline1(std::ostream& os, Real x, Real y, Real u, Real v) {os << Polyline({Point(x, y), Point(u, v)});}
	void comment(std::ostream& os, const std::string& s) {os << Comment(s);}

	void include(SVG& s, Real x, Real y) {s.includeInBB(Point(x, y));}
	void grect(SVG& s, Real x, Real y, Real w, Real h) {s << Rectangle(x, y, w, h);}
	void gcircle(SVG& s, Real x, Real y, Real r) {s << Circle(x, y, r);}
	void gellipse(SVG& s, Real x, Real y, Real r, Real t) {s << Ellipse(x, y, r, t);}
	void gline(SVG& s, Real x, Real y, Real u, Real v) {s << Line(x, y, u, v);}
	void gpolygon(SVG& s, const std::vector<Point>& p) {s << Polygon(p);}
	void gpolyline(SVG& s, const std::vector<Point>& p) {s << Polyline(p);}
	void gcomment(SVG& s, const std::string& t) {s << Comment(t);}
	void gtext(SVG& s, const std::string& t) {s << t;}
	void write(const SVG& s) {s.write();}
	void anon(Real x, Real y, Real w, Real h) {SVG s; s << Rectangle(x, y, w, h);}
	void scope(const std::string& n, Real x, Real y, Real w, Real h) {SVG s(n); s << Rectangle(x, y, w, h);}
	void empty(const std::string& n) {SVG s(n);}
	void two(const std::string& n, Real x, Real y, Real u, Real v) {SVG s(n); s << Line(x, y, u, v) << Line(u, v, x, y); s << Comment("end");}
	void moved(const std::string& n, Real x, Real y, Real u, Real v) {SVG s; s = SVG(n); s << Line(x, y, u, v);}
	void setbox(SVG& s, Real x, Real y, Real w, Real h) {s.origin = Point(x, y); s.dimension = Dimension(w, h);}
	void startdraw(int argc, char** argv) {Visualizer::init(argc, argv); Visualizer::image << Circle(0, 0, 1); Visualizer::image.write();}
	void start(int argc, char** argv) {Visualizer::init(argc, argv);}

	Point pplus(const Point& p, const Dimension& d) {return p + d;}
	Point pminus(const Point& p, const Dimension& d) {return p - d;}
	Point& pplusto(Point& p, const Dimension& d) {return p += d;}
	Point& pminusto(Point& p, const Dimension& d) {return p -= d;}
	Dimension dplus(const Dimension& p, const Dimension& d) {return p + d;}
	Dimension dminus(const Dimension& p, const Dimension& d) {return p - d;}
	Dimension& dplusto(Dimension& p, const Dimension& d) {return p += d;}
	Dimension& dminusto(Dimension& p, const Dimension& d) {return p -= d;}
}
