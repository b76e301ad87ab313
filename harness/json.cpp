// Instantiates JSON, reflection and log serialisation (never executed).
#include <HXLibs/reflection/json/JsonWrite.hpp>
#include <HXLibs/reflection/json/JsonRead.hpp>
#include <HXLibs/reflection/EnumName.hpp>
#include <HXLibs/reflection/MemberPtr.hpp>
#include <HXLibs/reflection/TypeName.hpp>
#include <HXLibs/reflection/FunctionName.hpp>
#include <HXLibs/reflection/ReflectionMacro.hpp>
#include <HXLibs/log/Log.hpp>
#include <HXLibs/utils/NumericBaseConverter.hpp>
#include <HXLibs/utils/ByteUtils.hpp>
#include <HXLibs/utils/StringUtils.hpp>
#include <HXLibs/utils/TickTock.hpp>
#include <HXLibs/utils/TimeNTTP.hpp>
#include <HXLibs/utils/Random.hpp>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <span>
#include <unordered_set>
using namespace HX;

enum class HEnum : uint32_t { A, B, C, D };
struct HInner { int x; std::string y; };
struct HAll {
    bool a; std::vector<std::vector<std::string>> b; std::unordered_map<std::string, std::string> c; std::optional<std::string> d;
    std::shared_ptr<std::string> e; double f; std::tuple<std::tuple<int, int>, std::string> g; std::array<double, 10> h; std::array<HEnum, 4> i;
    HInner j; std::vector<HInner> k; std::map<std::string, int> l; std::list<int> m; int8_t n; uint8_t o; int64_t p; uint64_t q; float r; std::unique_ptr<int> s; std::optional<int> t;
};
struct HView { std::string_view s; std::deque<int> dq; char ch; std::shared_ptr<HInner> sp; };
struct HSet { std::set<int> s; };
class HRefl { int a; std::string b; public: HX_REFL(a, b) };
class HReflAs { int a; std::string b; public: HX_REFL_AS(a, x, b, y) };
enum class HEnum8 : int8_t { X = -1, Y = 0, Z = 5 };

void h_json(std::string s) {
    HAll a; reflection::fromJson(a, s); reflection::toJson(a, s); 
    HRefl r; reflection::fromJson(r, s); reflection::toJson(r, s);
    HReflAs r2; reflection::fromJson(r2, s); reflection::toJson(r2, s);
    std::vector<HInner> v; reflection::fromJson(v, s); reflection::toJson(v, s);
    HView w; reflection::toJson(w, s);
    std::variant<int, std::string> var; (void)var;
}
void h_log(HAll const& a) {
    log::hxLog.info(1, "x", std::string{}, a.b, a.c, a.d, a.f, a.g, a.h, a.i, a.j, a.k, a.l, a.m, true, 'c', nullptr);
    log::hxLog.debug(1); log::hxLog.warning(1); log::hxLog.error(1);
    (void)log::formatString(a.j);
    std::string s; 
    reflection::toEnumName(HEnum::A); 
    (void)reflection::toEnum<HEnum>(s); (void)reflection::toEnumName(HEnum8::X);
    (void)utils::NumericBaseConverter::hexadecimalConversion(1);
    (void)utils::StringUtil::toLower(s); (void)utils::StringUtil::toUpper(s);
    (void)utils::StringUtil::split<std::string>(s, " "); (void)utils::StringUtil::split<std::string_view>(s, " ");
    (void)utils::StringUtil::split<std::string_view>(s, " ", {"x"});
    auto mp = reflection::makeMemberPtrToNameMap<HInner>(); (void)mp.at(&HInner::x);
}
