// Compile-time witnesses: what programs that use Args can not do.
#include <string>
#include <type_traits>
#include <utility>

#include "blet/args.h"

using blet::args::Args;
using blet::args::Argument;

#define CAN(name, ...)                                                         \
    template<typename T, typename = void>                                      \
    struct name : std::false_type {};                                          \
    template<typename T>                                                       \
    struct name<T, decltype(void(__VA_ARGS__))> : std::true_type {}

#define OBJ std::declval<T>()

CAN(add, OBJ.addArgument("x"));
CAN(update, OBJ.updateArgument("x"));
CAN(removes, OBJ.removeArguments("x"));
CAN(clears, OBJ.clear());
CAN(parses, OBJ.parseArguments(0, std::declval<char**>()));
CAN(flags, OBJ.flag("-x"));
CAN(requires_, OBJ.required(true));
CAN(helps, OBJ.help("x"));
CAN(metavars, OBJ.metavar("x"));
CAN(nargs_, OBJ.nargs(1));
CAN(actions, OBJ.action(blet::args::Action::NONE));
CAN(valids, OBJ.valid(std::declval<blet::args::IValid*>()));
CAN(dests, OBJ.dest(std::declval<int&>()));
CAN(defaults1, OBJ.defaults("x"));

template<typename T>
using brackets = decltype(std::declval<T>()[std::declval<const std::string&>()]);
template<typename T>
using gets = decltype(std::declval<T>().getArgument(std::declval<const std::string&>()));

// read access: the result does not convert to a modifiable argument
template<typename T>
struct read_only : std::integral_constant<bool, !std::is_convertible<T, Argument&>::value && std::is_convertible<T, const Argument&>::value> {};

static_assert(!std::is_copy_constructible<Args>::value, "an Args object cannot be copied");
static_assert(!std::is_constructible<Args, Args&>::value, "an Args object cannot be copied from a modifiable one");
static_assert(!std::is_constructible<Args, Args>::value, "an Args object cannot be moved");
static_assert(!std::is_assignable<Args&, const Args&>::value, "an Args object cannot be assigned");
static_assert(!std::is_assignable<Args&, Args&>::value, "an Args object cannot be assigned from a modifiable one");
static_assert(!std::is_assignable<Args&, Args>::value, "an Args object cannot be move assigned");
static_assert(read_only<brackets<Args&>>::value, "operator[] of an Args object gives read access only");
static_assert(read_only<brackets<const Args&>>::value, "operator[] of a const Args object gives read access only");
static_assert(read_only<gets<const Args&>>::value, "getArgument of a const Args object gives read access only");
static_assert(!update<const Args&>::value, "updateArgument needs a modifiable Args object");
static_assert(!add<const Args&>::value, "addArgument needs a modifiable Args object");
static_assert(!removes<const Args&>::value, "removeArguments needs a modifiable Args object");
static_assert(!clears<const Args&>::value, "clear needs a modifiable Args object");
static_assert(!parses<const Args&>::value, "parseArguments needs a modifiable Args object");
static_assert(!flags<const Argument&>::value, "flag needs a modifiable argument");
static_assert(!requires_<const Argument&>::value, "required needs a modifiable argument");
static_assert(!helps<const Argument&>::value, "help needs a modifiable argument");
static_assert(!metavars<const Argument&>::value, "metavar needs a modifiable argument");
static_assert(!nargs_<const Argument&>::value, "nargs needs a modifiable argument");
static_assert(!actions<const Argument&>::value, "action needs a modifiable argument");
static_assert(!valids<const Argument&>::value, "valid needs a modifiable argument");
static_assert(!dests<const Argument&>::value, "dest needs a modifiable argument");
static_assert(!defaults1<const Argument&>::value, "defaults needs a modifiable argument");

// the same probes do see what is allowed (the witnesses are not vacuous)
static_assert(update<Args&>::value && add<Args&>::value && removes<Args&>::value && clears<Args&>::value && parses<Args&>::value, "a modifiable Args object can be changed");
static_assert(flags<Argument&>::value && requires_<Argument&>::value && helps<Argument&>::value && metavars<Argument&>::value && nargs_<Argument&>::value && actions<Argument&>::value && valids<Argument&>::value && dests<Argument&>::value && defaults1<Argument&>::value, "a modifiable argument can be changed");
