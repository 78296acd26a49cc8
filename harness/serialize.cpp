//! L01: what is serialized and read back, in every format: every value of a grammar of shapes with
//! boundary values, every truncation and every corruption (of an alphabet) of every document.

#include "enumerate.h"
#include "vkc.h"

#include "common/serialize/binary.h"
#include "common/serialize/create.h"
#include "common/serialize/ini.h"
#include "common/serialize/json.h"
#include "common/serialize/macro.h"
#include "common/serialize/native/binary.h"
#include "common/serialize/native/network.h"
#include "common/serialize/xml.h"
#include "common/serialize/yaml.h"
#include "common/uuid.h"

#include <cmath>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <tuple>

#include <sys/resource.h>
#include <unistd.h>

namespace
{
   namespace cc = casual::common;
   namespace cs = casual::common::serialize;
   using vke::Enumerate;
   using Binary = casual::platform::binary::type;

   std::string log;
   struct Skipped {};
   [[noreturn]] void wrong( const std::string& kind, const std::string& text = {})
   {
      // (for development: everything that is wrong)
      if( auto survey = std::getenv( "VK_SURVEY"))
      {
         std::ofstream( survey, std::ios::app) << kind << ": " << text << " | " << log << std::endl;
         throw Skipped{};
      }
      vk::violation( kind, text + "\nafter: " + log);
   }
   //! enumerates all
   void every( int forks, const std::function< void( Enumerate&)>& body)
   {
      Enumerate enumerate{ forks};
      enumerate.run( [&]() { log.clear(); try { body( enumerate);} catch( const Skipped&) {}});
   }

   std::string shown( const std::string& bytes)
   {
      std::string result;
      for( unsigned char c : bytes)
         if( c >= 32 && c < 127) result += c;
         else { char hex[ 8]; std::snprintf( hex, sizeof( hex), "\\x%02x", c); result += hex;}
      return result.size() > 400 ? result.substr( 0, 400) + "..." : result;
   }
   std::string shown( const Binary& bytes) { return shown( std::string( reinterpret_cast< const char*>( bytes.data()), bytes.size()));}

   // formats

   enum Format { json, json_compact, yaml, xml, ini, native, network, dynamic, formats};
   const char* name_of( int format)
   {
      static const char* names[] = { "json", "json-compact", "yaml", "xml", "ini", "native", "network", "binary"};
      return names[ format];
   }
   bool textual( int format) { return format < ini;}
   bool named( int format) { return format <= ini;}

   cs::Writer writer_of( int format)
   {
      switch( format)
      {
         case json: return cs::create::writer::from( "json");
         case json_compact: return cs::json::writer();
         case yaml: return cs::create::writer::from( "yaml");
         case xml: return cs::create::writer::from( "xml");
         case ini: return cs::create::writer::from( "ini");
         default: return cs::binary::writer();
      }
   }
   const char* key_of( int format)
   {
      switch( format)
      {
         case json: case json_compact: return "json";
         case yaml: return "yaml";
         case xml: return "xml";
         case ini: return "ini";
         default: return "binary";
      }
   }

   enum Policy { relaxed, strict, consumed};

   template< bool Network = true, typename T>
   Binary encode( int format, const T& value)
   {
      if( format == native)
      {
         auto writer = cs::native::binary::create::Writer{}();
         writer << value;
         return writer.consume();
      }
      if constexpr( Network) if( format == network)
      {
         auto writer = cs::native::binary::network::create::Writer{}();
         writer << value;
         return writer.consume();
      }
      auto writer = writer_of( format);
      writer << value;
      Binary result;
      writer.consume( result);
      return result;
   }

   template< bool Network = true, typename T>
   void decode( int format, const Binary& document, T& value, Policy policy = relaxed, bool stream = false)
   {
      // a copy of the exact size, to have anything that is read beyond it seen
      Binary source( document.begin(), document.end());
      if( format == native)
      {
         auto reader = cs::native::binary::create::Reader{}( source);
         reader >> value;
         return;
      }
      if constexpr( Network) if( format == network)
      {
         auto reader = cs::native::binary::network::create::Reader{}( source);
         reader >> value;
         return;
      }
      std::istringstream in{ std::string( reinterpret_cast< const char*>( source.data()), source.size())};
      auto reader = [&]()
      {
         if( format == dynamic) return cs::binary::reader( source);
         switch( policy)
         {
            case strict: return stream ? cs::create::reader::strict::from( key_of( format), in) : cs::create::reader::strict::from( key_of( format), source);
            case consumed: return stream ? cs::create::reader::consumed::from( key_of( format), in) : cs::create::reader::consumed::from( key_of( format), source);
            default: return stream ? cs::create::reader::relaxed::from( key_of( format), in) : cs::create::reader::relaxed::from( key_of( format), source);
         }
      }();
      reader >> value;
      reader.validate();
   }

   Binary bytes_of( const std::string& text)
   {
      auto data = reinterpret_cast< const std::byte*>( text.data());
      return Binary( data, data + text.size());
   }

   // the values

   enum struct Small : short { low = -32768, zero = 0, high = 32767};
   enum struct Big : std::uint32_t { zero = 0, high = 0xffffffff};

   struct Fixed { std::array< std::byte, 4> data{}; bool operator == ( const Fixed&) const = default;
      CASUAL_CONST_CORRECT_SERIALIZE( CASUAL_SERIALIZE( data);) };

   template< typename T>
   struct Named { T value{}; bool operator == ( const Named&) const = default;
      CASUAL_CONST_CORRECT_SERIALIZE( CASUAL_SERIALIZE( value);) };

   template< typename T>
   struct Around { long before{}; T value{}; long after{}; bool operator == ( const Around&) const = default;
      CASUAL_CONST_CORRECT_SERIALIZE( CASUAL_SERIALIZE( before); CASUAL_SERIALIZE( value); CASUAL_SERIALIZE( after);) };

   template< typename T> struct Tag { using type = T;};

   bool thorough() { return vk::thorough();}

   std::vector< std::string> texts()
   {
      static const std::string alphabet{ "\0\t\n\r \"'\\<>&#:-{}[],=;|%@!*?0aN~\x7f\x01\x1b", 38 - 1};
      static std::vector< std::string> result = []()
      {
         std::vector< std::string> result{ "", "null", "Null", "~", "true", "false", "yes", "no", "on", "1", "-1", "1.5", "0x10", "1e3", ".inf", ".nan", "---", "...", "%YAML",
            "]]>", "<!--", "-->", "&amp;", "&#0;", "<a/>", "[section]", "a=b", "#a", ";a", "key: value", "- a", "!!binary x", "\\n", "\\", "\\\\", "\\0", "\\x", "\r\n",
            "\xc3\xa5\xc3\xa4\xc3\xb6", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\x85", "\xe2\x80\xa8", "\xef\xbb\xbf", "\xef\xbf\xbf", "\xc2\xa0", "\xc2\x80",
            "\xff", "\xc3", "a\xe5", "\xc0\x80", "\xed\xa0\x80", std::string( 300, 'x'), "  x  ", " ", "\n\n", "a\nb", "a\n b\n", "\ta", "a\t"};
         for( auto a : alphabet)
         {
            result.push_back( std::string{ a});
            for( auto b : alphabet)
            {
               result.push_back( std::string{ a, b});
               if( thorough()) for( auto c : alphabet) result.push_back( std::string{ a, b, c});
            }
         }
         return result;
      }();
      return result;
   }

   bool valid_utf8( const std::string& text)
   {
      for( std::size_t index = 0; index < text.size();)
      {
         unsigned char lead = text[ index];
         int more = lead < 0x80 ? 0 : lead >= 0xc2 && lead < 0xe0 ? 1 : ( lead & 0xf0) == 0xe0 ? 2 : lead >= 0xf0 && lead < 0xf5 ? 3 : -1;
         if( more < 0 || index + more >= text.size()) return false;
         unsigned long point = more == 0 ? lead : lead & ( 0x3f >> more);
         for( int offset = 1; offset <= more; ++offset)
         {
            unsigned char next = text[ index + offset];
            if( ( next & 0xc0) != 0x80) return false;
            point = ( point << 6) | ( next & 0x3f);
         }
         if( more == 2 && ( point < 0x800 || ( point >= 0xd800 && point < 0xe000))) return false;
         if( more == 3 && ( point < 0x10000 || point > 0x10ffff)) return false;
         index += more + 1;
      }
      return true;
   }

   template< typename T> std::vector< T> values()
   {
      if constexpr( std::is_same_v< T, bool>) return { false, true};
      else if constexpr( std::is_same_v< T, std::string>) return texts();
      else if constexpr( std::is_same_v< T, std::u8string>)
      {
         std::vector< T> result;
         for( auto& text : texts()) result.emplace_back( reinterpret_cast< const char8_t*>( text.data()), text.size());
         return result;
      }
      else if constexpr( std::is_same_v< T, Binary>)
      {
         std::vector< T> result{ {}};
         const std::string alphabet{ "\0\n =a\x7f\x80\xff", 8};
         for( auto a : alphabet)
         {
            result.push_back( bytes_of( std::string{ a}));
            for( auto b : alphabet)
            {
               result.push_back( bytes_of( std::string{ a, b}));
               for( auto c : alphabet) result.push_back( bytes_of( std::string{ a, b, c}));
            }
         }
         result.push_back( bytes_of( std::string( 200, '\xfe')));
         return result;
      }
      else if constexpr( std::is_same_v< T, Fixed>)
      {
         std::vector< T> result;
         for( unsigned char c : { 0, 1, 0x7f, 0x80, 0xff, int( '\n')})
            result.push_back( Fixed{ { std::byte{ c}, std::byte( c + 1), std::byte{ 0}, std::byte{ c}}});
         return result;
      }
      else if constexpr( std::is_same_v< T, cc::Uuid>)
         return { cc::Uuid{}, cc::Uuid{ "315dacc6182e4c12bf9877efa924cb87"}, cc::Uuid{ "00000000000000000000000000000001"}, cc::Uuid{ "ffffffffffffffffffffffffffffffff"}};
      else if constexpr( std::is_enum_v< T>) return { T( 0), T( std::numeric_limits< std::underlying_type_t< T>>::max()), T( std::numeric_limits< std::underlying_type_t< T>>::min()), T( 1)};
      else if constexpr( std::is_same_v< T, casual::platform::time::unit>)
         return { T{ 0}, T{ 1}, T{ -1}, T{ 1500}, std::chrono::hours{ 24}, T::max(), T::min()};
      else if constexpr( std::is_same_v< T, std::filesystem::path>)
         return { "", "/", "/tmp/a b", "a/../b", ".", "a\nb", "\xc3\xa5"};
      else if constexpr( std::is_floating_point_v< T>)
      {
         using limit = std::numeric_limits< T>;
         return { T( 0), T( -0.0), T( 1), T( -1), T( 0.1), T( 1) / T( 3), T( 1e-7), T( 1e22), T( 123456789.123456789), T( 16777217), limit::min(), limit::max(), limit::lowest(),
            limit::denorm_min(), limit::epsilon(), T( 1) + limit::epsilon(), limit::infinity(), -limit::infinity(), limit::quiet_NaN()};
      }
      else
      {
         using limit = std::numeric_limits< T>;
         std::set< T> result{ limit::min(), T( limit::min() + 1), T( -1), T( 0), T( 1), T( limit::max() - 1), limit::max(), T( 9), T( 10), T( 127), T( 128), T( 255), T( 256), T( 32767), T( 32768), T( 65535), T( 65536),
            T( 2147483647L), T( 2147483648L), T( 4294967295L), T( 4294967296L), T( 9007199254740993L)};
         if constexpr( sizeof( T) == 1)
            for( int value = 0; value < 256; ++value) result.insert( T( value));
         return { result.begin(), result.end()};
      }
   }

   //! can the format carry the value
   template< typename T> bool carried( int format, const T& value)
   {
      if( ! named( format)) return true;
      if constexpr( std::is_same_v< T, std::string>)
      {
         if( format == ini) return true;
         return valid_utf8( value) && ! ( format == xml && value.find( '\0') != std::string::npos);
      }
      else if constexpr( std::is_same_v< T, std::filesystem::path>) return carried( format, value.string());
      else if constexpr( std::is_same_v< T, std::u8string>)
      {
         std::string text( reinterpret_cast< const char*>( value.data()), value.size());
         return valid_utf8( text) && ! ( format == xml && text.find( '\0') != std::string::npos);
      }
      else if constexpr( std::is_same_v< T, char> || std::is_same_v< T, std::uint8_t> || std::is_same_v< T, std::int8_t>)
         return format == ini || static_cast< unsigned char>( value) < 0x80;
      else if constexpr( std::is_floating_point_v< T>) return format == yaml || std::isfinite( value);
      else return true;
   }
   //! what a text format silently changes, that it has no way to express
   template< typename T> bool inexpressible( int format, const T& value)
   {
      if constexpr( std::is_same_v< T, std::u8string>)
         return ! carried( format, value) || ( format == yaml && value.find( u8"\uffff") != std::u8string::npos);
      else if constexpr( std::is_same_v< T, std::string>) return ( format == xml && value.find( '\0') != std::string::npos) || ( format == yaml && value.find( "\xef\xbf\xbf") != std::string::npos);
      else return false;
   }

   template< typename T> bool equal( const std::optional< T>& a, const std::optional< T>& b);
   template< typename T> bool equal( const std::vector< T>& a, const std::vector< T>& b);
   template< typename A, typename B> bool equal( const std::tuple< A, B>& a, const std::tuple< A, B>& b);
   template< typename A, typename B> bool equal( const std::map< A, B>& a, const std::map< A, B>& b);

   template< typename T> bool equal( const T& a, const T& b)
   {
      if constexpr( std::is_floating_point_v< T>)
         return std::isnan( a) ? std::isnan( b) : a == b && std::signbit( a) == std::signbit( b);
      else return a == b;
   }
   template< typename T> bool equal( const Named< T>& a, const Named< T>& b) { return equal( a.value, b.value);}
   template< typename T> bool equal( const Around< T>& a, const Around< T>& b) { return a.before == b.before && a.after == b.after && equal( a.value, b.value);}
   template< typename T> bool equal( const std::optional< T>& a, const std::optional< T>& b) { return a && b ? equal( *a, *b) : bool( a) == bool( b);}
   template< typename T> bool equal( const std::vector< T>& a, const std::vector< T>& b)
   {
      if( a.size() != b.size()) return false;
      for( std::size_t index = 0; index < a.size(); ++index)
         if( ! equal( T( a[ index]), T( b[ index]))) return false;
      return true;
   }
   template< typename A, typename B> bool equal( const std::tuple< A, B>& a, const std::tuple< A, B>& b) { return equal( std::get< 0>( a), std::get< 0>( b)) && equal( std::get< 1>( a), std::get< 1>( b));}
   template< typename A, typename B> bool equal( const std::map< A, B>& a, const std::map< A, B>& b)
   {
      if( a.size() != b.size()) return false;
      for( auto one = a.begin(), other = b.begin(); one != a.end(); ++one, ++other)
         if( ! equal( one->first, other->first) || ! equal( one->second, other->second)) return false;
      return true;
   }

   std::string thrown() 
   { 
      try { throw;}
      catch( const std::exception& error) { return error.what();}
      catch( ...) { return "something";}
   }

   //! @returns whether the value could be written
   template< bool Network = true, typename T>
   bool roundtrip( int format, const T& value, bool carry, bool whatever)
   {
      Binary document;
      try { document = encode< Network>( format, value);}
      catch( ...)
      {
         if( carry) wrong( std::string{ "refused-"} + name_of( format), "not possible to write: " + thrown());
         vk::cover( std::string{ "refused "} + name_of( format));
         return false;
      }
      auto check = [&]( Policy policy, bool stream)
      {
         T result{};
         try { decode< Network>( format, document, result, policy, stream);}
         catch( ...)
         {
            if( carry) wrong( std::string{ "unreadable-"} + name_of( format), "what is written is not possible to read: " + thrown() + "\ndocument: " + shown( document));
            return;
         }
         if( ! equal( value, result) && ! whatever)
            wrong( std::string{ "changed-"} + name_of( format), "something else is read than was written, document: " + shown( document));
      };
      check( relaxed, false);
      if( format == native || format == network) { vk::evaluated(); return true;}
      check( relaxed, true);
      check( consumed, false);
      vk::evaluated();

      // the writer is possible to use again
      try
      {
         auto writer = writer_of( format);
         Binary first, second;
         writer << value;
         writer.consume( first);
         writer << value;
         writer.consume( second);
         if( first != document || second != document)
            wrong( std::string{ "used-writer-"} + name_of( format), "a writer that has been consumed writes something else: " + shown( second));
      }
      catch( const Skipped&) { throw;}
      catch( ...) { wrong( std::string{ "used-writer-"} + name_of( format), thrown());}
      return true;
   }

   //! not (natively) supported by network
   template< typename T> constexpr bool is_unsigned = ! std::is_same_v< T, bool> && ! std::is_same_v< T, std::uint8_t> && ( std::is_unsigned_v< T> || std::is_same_v< T, Big>);

   //! every placement of the value
   template< typename T>
   void placements( Enumerate& enumerate, int format)
   {
      static const auto all = values< T>();
      const T value = all[ enumerate( int( all.size()))];
      // what is of the size of a byte has no containers of its own
      using E = std::conditional_t< sizeof( T) == 1, Named< T>, T>;
      const E element{ value};
      const bool carry = carried( format, value);
      const bool whatever = inexpressible( format, value);
      auto placement = enumerate( 12);
      log += std::string{ name_of( format)} + ", placement " + std::to_string( placement);
      if constexpr( std::is_same_v< T, std::string>) log += ", text " + shown( value);
      else if constexpr( std::is_same_v< T, std::u8string>) log += ", text " + shown( std::string( reinterpret_cast< const char*>( value.data()), value.size()));
      else if constexpr( std::is_same_v< T, Binary>) log += ", binary " + shown( value);
      else if constexpr( std::is_arithmetic_v< T>) { std::ostringstream text; text.precision( 17); text << +value; log += ", value " + text.str();}
      else log += ", type " + std::string{ typeid( T).name()};
      
      // containers have names, and contain no containers, in ini
      const bool flat = format != ini;
      constexpr bool net = ! is_unsigned< T>;
      if( ! net && format == network) return;
      switch( placement)
      {
         case 0: roundtrip< net>( format, Named< T>{ value}, carry, whatever); break;
         case 1: roundtrip< net>( format, Named< Around< T>>{ { 1, value, -1}}, carry, whatever); break;
         case 2: if( flat) roundtrip< net>( format, std::vector< E>{ element}, carry, whatever); break;
         case 3: roundtrip< net>( format, Around< std::vector< E>>{ 1, { element, E{}, element}, -1}, carry, whatever); break;
         case 4: roundtrip< net>( format, Around< std::optional< T>>{ 1, value, -1}, carry, whatever); break;
         case 5: roundtrip< net>( format, Named< std::vector< std::vector< E>>>{ { { element}, {}, { element, element}}}, carry && flat, whatever); break;
         case 6: roundtrip< net>( format, Around< std::tuple< T, T>>{ 1, { value, T{}}, -1}, carry, whatever); break;
         case 7: roundtrip< net>( format, Named< std::vector< Around< T>>>{ { { 1, value, 2}, { 3, T{}, 4}, { 5, value, 6}}}, carry, whatever); break;
         case 8: roundtrip< net>( format, Around< std::map< long, T>>{ 1, { { -1, value}, { 0, T{}}, { 1, value}}, -1}, carry && flat, whatever); break;
         case 9: roundtrip< net>( format, Around< std::optional< Named< std::optional< T>>>>{ 1, Named< std::optional< T>>{ value}, -1}, carry, whatever); break;
         case 10: roundtrip< net>( format, Named< std::vector< std::tuple< T, long>>>{ { { value, 1}, { T{}, 2}}}, carry && flat, whatever); break;
         case 11:
            if constexpr( std::is_same_v< T, std::string>)
               roundtrip< net>( format, Named< std::map< std::string, std::vector< std::string>>>{ { { value, { value}}, { "x", {}}}}, carry && flat, whatever);
            else if( ! named( format))
               // the elements have a place of their own even if they have no value
               roundtrip< net>( format, std::vector< std::optional< E>>{ {}, element, {}, element}, carry, whatever);
            break;
      }
   }

   template< typename... Ts>
   struct Types
   {
      static constexpr int size = sizeof...( Ts);
      static void run( int type, Enumerate& enumerate, int format)
      {
         int index = 0;
         ( ( index++ == type ? placements< Ts>( enumerate, format) : void()), ...);
      }
   };
   using Basic = Types< bool, char, std::int8_t, std::uint8_t, short, std::uint16_t, int, unsigned int, long, unsigned long, long long, float, double, std::string, std::u8string, Binary,
      Fixed, cc::Uuid, Small, Big, casual::platform::time::unit, std::filesystem::path>;

   // shapes

   struct Shape
   {
      bool flag = false;
      std::string text;
      std::vector< long> numbers;
      std::optional< std::string> maybe;
      std::vector< Named< std::optional< long>>> parts;
      std::optional< std::vector< std::string>> texts;
      std::map< std::string, long> map;
      Named< std::vector< std::vector< short>>> inner;
      double real = 0.0;
      Binary binary;

      bool operator == ( const Shape&) const = default;
      CASUAL_CONST_CORRECT_SERIALIZE(
         CASUAL_SERIALIZE( flag);
         CASUAL_SERIALIZE( text);
         CASUAL_SERIALIZE( numbers);
         CASUAL_SERIALIZE( maybe);
         CASUAL_SERIALIZE( parts);
         CASUAL_SERIALIZE( texts);
         CASUAL_SERIALIZE( map);
         CASUAL_SERIALIZE( inner);
         CASUAL_SERIALIZE( real);
         CASUAL_SERIALIZE( binary);
      )
   };
   bool equal( const Shape& a, const Shape& b) { return a == b;}

   //! ini has no nested containers, and no way to tell an empty container from none
   struct Flat
   {
      bool flag = false;
      std::string text;
      std::vector< long> numbers;
      std::optional< std::string> maybe;
      std::vector< Named< std::optional< long>>> parts;
      Named< std::vector< std::string>> inner;
      double real = 0.0;
      Binary binary;

      bool operator == ( const Flat&) const = default;
      CASUAL_CONST_CORRECT_SERIALIZE(
         CASUAL_SERIALIZE( flag);
         CASUAL_SERIALIZE( text);
         CASUAL_SERIALIZE( numbers);
         CASUAL_SERIALIZE( maybe);
         CASUAL_SERIALIZE( parts);
         CASUAL_SERIALIZE( inner);
         CASUAL_SERIALIZE( real);
         CASUAL_SERIALIZE( binary);
      )
   };
   bool equal( const Flat& a, const Flat& b) { return a == b;}

   Shape shape( Enumerate& enumerate)
   {
      Shape result;
      result.flag = enumerate( 2);
      result.text = std::vector< std::string>{ "", "a: [b] <c/> \"\\\n"}[ enumerate( 2)];
      result.numbers = std::vector< std::vector< long>>{ {}, { -1}, { 1, 2}}[ enumerate( 3)];
      if( auto maybe = enumerate( 3)) result.maybe = std::vector< std::string>{ "", "x"}[ maybe - 1];
      switch( enumerate( 4))
      {
         case 1: result.parts = { { {}}}; break;
         case 2: result.parts = { { 1}, { {}}}; break;
         case 3: result.parts = { { {}}, { 2}, { {}}}; break;
      }
      switch( enumerate( 3))
      {
         case 1: result.texts = std::vector< std::string>{}; break;
         case 2: result.texts = std::vector< std::string>{ "", "b"}; break;
      }
      result.map = std::vector< std::map< std::string, long>>{ {}, { { "", 0}, { "k", 1}}}[ enumerate( 2)];
      result.inner.value = std::vector< std::vector< std::vector< short>>>{ {}, { {}}, { {}, { 1, 2}, { 3}}}[ enumerate( 3)];
      result.real = std::vector< double>{ 0.0, -1.5}[ enumerate( 2)];
      result.binary = std::vector< Binary>{ {}, bytes_of( std::string( "\0\xff", 2))}[ enumerate( 2)];
      return result;
   }
   Flat flat( const Shape& shape)
   {
      Flat result;
      result.flag = shape.flag; result.text = shape.text; result.numbers = shape.numbers; result.maybe = shape.maybe; result.parts = shape.parts;
      if( shape.texts) result.inner.value = *shape.texts;
      result.real = shape.real; result.binary = shape.binary;
      return result;
   }

   //! a value of every kind, that is something else than what a default is
   Shape full()
   {
      Shape result;
      result.flag = true; result.text = "te<x>t\\"; result.numbers = { 10, -20}; result.maybe = "m"; result.parts = { { 3}, { {}}};
      result.texts = std::vector< std::string>{ "t1", ""}; result.map = { { "k", 1}}; result.inner.value = { { 1}, {}, { 2, 3}}; result.real = 0.5; result.binary = bytes_of( "bin");
      return result;
   }

   void shapes( Enumerate& enumerate)
   {
      auto format = enumerate( formats);
      auto value = shape( enumerate);
      log = std::string{ "shape, "} + name_of( format);
      if( format == ini) { roundtrip( format, flat( value), true, false); return;}
      roundtrip( format, value, true, false);
      if( ! named( format))
      {
         roundtrip( format, std::vector< Shape>{ value, full()}, true, false);
      }
      vk::cover( std::string{ "shape "} + name_of( format));
   }

   // broken documents

   //! @returns false if there is an error
   template< typename T>
   std::optional< T> attempt( int format, const Binary& document, Policy policy = relaxed)
   {
      try
      {
         T result{};
         decode( format, document, result, policy);
         return result;
      }
      catch( ...) { return {};}
   }

   template< typename T>
   void broken_document( Enumerate& enumerate, int format, const T& value, bool one_root = false)
   {
      static const std::string alphabet{ "\0\n \"'\\<>&#:-{}[],=;|%!*/0a\x7f\x80\xff\x01", 31};
      const auto document = encode( format, value);
      auto position = enumerate( int( document.size()) + 1);
      auto kind = enumerate( 3);
      auto changed = document;
      switch( kind)
      {
         case 0:
         {
            changed.resize( position);
            log = std::string{ name_of( format)} + ", the first " + std::to_string( position) + " bytes of " + shown( document);
            auto policy = Policy( enumerate( named( format) ? 3 : 1));
            auto result = attempt< T>( format, changed, policy);
            vk::evaluated();
            // every member of the document is needed, but in yaml and ini a shorter document can be a document
            auto blank = [&]()
            {
               for( std::size_t index = position; index < document.size(); ++index)
                  if( ! std::isspace( static_cast< unsigned char>( document[ index]))) return false;
               return true;
            };
            // an empty document has defaults for everything
            if( position == 0 && named( format)) break;
            if( result && std::size_t( position) < document.size() && format != yaml && format != ini && ( format != xml || one_root) && ! blank())
               wrong( std::string{ "truncated-"} + name_of( format), "a document without its end is read without an error");
            if( ! result && policy != strict && std::size_t( position) == document.size())
               wrong( std::string{ "complete-"} + name_of( format), "a complete document is not possible to read");
            break;
         }
         case 1:
         {
            if( std::size_t( position) == document.size()) return;
            changed[ position] = std::byte( alphabet[ enumerate( int( alphabet.size()))]);
            log = std::string{ name_of( format)} + ", byte " + std::to_string( position) + " changed: " + shown( changed);
            attempt< T>( format, changed, Policy( enumerate( named( format) ? 3 : 1)));
            vk::evaluated();
            break;
         }
         case 2:
         {
            if( std::size_t( position) == document.size()) return;
            changed.erase( changed.begin() + position);
            log = std::string{ name_of( format)} + ", byte " + std::to_string( position) + " removed: " + shown( changed);
            attempt< T>( format, changed, relaxed);
            vk::evaluated();
            break;
         }
      }
   }

   void broken_documents( Enumerate& enumerate)
   {
      auto format = enumerate( formats);
      auto which = enumerate( 3);
      if( which == 0)
      {
         auto value = full();
         if( format == ini) broken_document( enumerate, format, flat( value));
         else broken_document( enumerate, format, value);
      }
      else if( which == 1)
      {
         Shape value;
         value.text = "x";
         if( format == ini) broken_document( enumerate, format, flat( value));
         else broken_document( enumerate, format, value);
      }
      else broken_document( enumerate, format, Named< Around< std::string>>{ { 1, "abc", 2}}, true);
   }

   //! something of one kind where something else is expected
   struct Kinds
   {
      long number = 42; short small = 42; int medium = 42; unsigned short natural = 42; std::string text = "42"; bool flag = true; double real = 42; char letter = '*';
      std::vector< long> numbers{ 42}; Named< long> inner{ 42}; std::optional< long> maybe{ 42}; Small enumeration{ 42}; unsigned int positive = 42; Binary binary = bytes_of( "42"); Fixed fixed;
   };

   template< typename T> struct Only { T value{}; CASUAL_CONST_CORRECT_SERIALIZE( CASUAL_SERIALIZE( value);) };

   std::string document_of( int format, const std::string& content)
   {
      switch( format)
      {
         case json: return "{\"value\": " + content + "}";
         case yaml: return "---\nvalue: " + content + "\n...\n";
         case xml: return "<?xml version=\"1.0\"?>\n<value>" + content + "</value>\n";
         case ini: return "value=" + content + "\n";
      }
      return {};
   }

   //! fill the stack with something that is recognised
   __attribute__(( noinline)) void dirty()
   {
      volatile char memory[ 16384];
      for( auto& byte : memory) byte = 0x5a;
      (void)memory[ 7];
   }

   template< typename T>
   void number( int format, std::string content, Policy policy)
   {
      Only< T> result{ T( 42)};
      dirty();
      try { decode< false>( format, bytes_of( document_of( format, content)), result, policy);}
      catch( ...) { vk::evaluated(); return;}
      vk::evaluated();
      // what is it that the text says (a quoted number is a number, in yaml)
      if( format == yaml && content == "\"1\"") content = "1";
      long double expected = 0;
      if( content == "null" || content == "~" || content.empty()) expected = 42;
      else if( content == ".inf") expected = std::numeric_limits< long double>::infinity();
      else
      {
         char* end = nullptr;
         const bool octal = format == yaml && content.size() > 1 && content[ 0] == '0' && content.find_first_not_of( "01234567") == std::string::npos;
         if( octal) expected = std::strtol( content.c_str(), &end, 8);
         else expected = std::strtold( content.c_str(), &end);
         if( *end != '\0') wrong( std::string{ "accepted-"} + name_of( format), "'" + content + "' is read as the number " + std::to_string( double( result.value)));
      }
      long double actual = result.value;
      bool same = std::is_floating_point_v< T> ? T( expected) == result.value : expected == actual;
      if( ! same)
         wrong( std::string{ "accepted-"} + name_of( format), "'" + content + "' is read as " + std::to_string( double( result.value)) + ", a " + typeid( T).name());
   }

   template< typename T>
   void other( int format, const std::string& content, Policy policy, bool ( *valid)( int, const std::string&, const T&))
   {
      Only< T> result;
      dirty();
      try { decode< false>( format, bytes_of( document_of( format, content)), result, policy);}
      catch( ...) { vk::evaluated(); return;}
      vk::evaluated();
      if( ! valid( format, content, result.value)) 
         wrong( std::string{ "accepted-"} + name_of( format), "'" + content + "' is accepted as a " + typeid( T).name());
   }

   void kinds( Enumerate& enumerate)
   {
      static const std::vector< std::string> contents{ "0", "1", "-1", "42", "32767", "32768", "-32768", "-32769", "65535", "65536", "70000", "2147483647", "2147483648", "4294967295", "4294967296",
         "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "99999999999999999999", "1.5", "1e3", "0.5", "-0", "007", "0x10",
         "1a", "a1", "1 2", "--1", "+1", "", "null", "~", "true", "false", "yes", "x", "xy", "\"1\"", "\"x\"", "[]", "[1]", "[1, 2]", "{}", "{\"value\": 1}", "{\"x\": 1}", "<value>1</value>", "<element>1</element>", "<x/>", "1e400", "1e39", ".inf",
         "\"bm9l\"", "!!binary bm9l", "\"MTIzNA==\"", "MTIzNA==", "bm9l", "b", "bm9", "====", "\"*\""};
      const int which[] = { json, yaml, xml, ini};
      auto format = which[ enumerate( 4)];
      auto& content = contents[ enumerate( int( contents.size()))];
      auto policy = Policy( enumerate( 3));
      auto kind = enumerate( 16);
      log = std::string{ name_of( format)} + " '" + content + "' as kind " + std::to_string( kind);
      switch( kind)
      {
         case 0: number< long>( format, content, policy); break;
         case 1: number< short>( format, content, policy); break;
         case 2: number< int>( format, content, policy); break;
         case 3: number< unsigned int>( format, content, policy); break;
         case 5: number< long long>( format, content, policy); break;
         case 6: number< double>( format, content, policy); break;
         case 7: number< float>( format, content, policy); break;
         case 8: other< bool>( format, content, policy, []( int format, const std::string& content, const bool& value)
            {
               if( content == "true" || ( format == yaml && content == "yes")) return value;
               if( content == "null" || content == "~" || content.empty()) return ! value;
               return content == "false" && ! value;
            }); break;
         case 9: other< std::vector< long>>( format, content, policy, []( int format, const std::string& content, const std::vector< long>& value)
            {
               if( format == json || format == yaml)
               {
                  if( content == "[1]") return value == std::vector< long>{ 1};
                  if( content == "[1, 2]") return value == std::vector< long>{ 1, 2};
                  return ( content == "[]" || content == "{}" || content == "null" || content == "~" || content.empty()) && value.empty();
               }
               // in xml and ini a container has no notation of its own
               if( content == "<element>1</element>" && format == xml) return value == std::vector< long>{ 1};
               return format == ini || value.empty();
            }); break;
         case 10: other< Named< long>>( format, content, policy, []( int format, const std::string& content, const Named< long>& value)
            {
               if( content == "{\"value\": 1}" && format != xml && format != ini) return value.value == 1;
               if( content == "<value>1</value>" && format == xml) return value.value == 1;
               return value.value == 0 && ( format == xml || format == ini || content[ 0] == '{' || content == "null" || content == "~" || content.empty());
            }); break;
         case 11: other< std::optional< long>>( format, content, policy, []( int, const std::string& content, const std::optional< long>& value)
            {
               if( ! value) return true;
               if( content == "null" || content == "~" || content.empty()) return *value == 0;
               return true;
            }); break;
         case 12: other< Small>( format, content, policy, []( int format, const std::string& content, const Small& value)
            {
               if( content == "null" || content == "~" || content.empty()) return value == Small::zero;
               if( format == yaml && content == "\"1\"") return long( value) == 1;
               char* end = nullptr;
               auto expected = std::strtol( content.c_str(), &end, format == yaml && content[ 0] == '0' ? 0 : 10);
               if( *end) { auto real = std::strtod( content.c_str(), &end); return *end == '\0' && real == double( long( value));}
               return expected == long( value);
            }); break;
         case 13: other< std::array< std::byte, 4>>( format, content, policy, []( int, const std::string& content, const std::array< std::byte, 4>& value)
            {
               // 4 bytes
               if( content.find( "MTIzNA==") != std::string::npos) return value == std::array< std::byte, 4>{ std::byte{ '1'}, std::byte{ '2'}, std::byte{ '3'}, std::byte{ '4'}};
               // of defaults
               return value == std::array< std::byte, 4>{} || ( content.size() == 6 && content.find_first_not_of( "0123456789") == std::string::npos);
            }); break;
         case 14: other< std::tuple< long, long>>( format, content, policy, []( int format, const std::string& content, const std::tuple< long, long>& value)
            {
               if( content == "[1, 2]" && ( format == json || format == yaml)) return value == std::tuple< long, long>{ 1, 2};
               return value == std::tuple< long, long>{ 0, 0};
            }); break;
         case 15: other< char>( format, content, policy, []( int, const std::string& content, const char& value) { return true;}); break;
      }
   }

   // documents with other structure than what is read

   template< typename T>
   void root( int format, const std::string& document, Policy policy)
   {
      T result{};
      try { decode( format, bytes_of( document), result, policy);} catch( ...) {}
      vk::evaluated();
   }

   void structure( Enumerate& enumerate)
   {
      static const std::vector< std::vector< std::string>> documents{
         { "", " ", "1", "\"x\"", "true", "null", "[]", "[1]", "{}", "[[]]", "[{}]", "[null]", "{\"value\": {\"value\": null}}", "{\"value\": null}", "{\"value\": [null]}", "{\"value\": [[null]]}", "{\"value\": [1, [2]]}", "{\"\": 1}", "{\"value\": 1, \"value\": 2}", "nul", "{", "[", "\xef\xbb\xbf{}", "{\"value\": \"\\u0000\"}", "{\"value\": \"\\ud800\"}", "{}{}", "{\"value\": [1,]}", "{\"value\": 01}", "{\"value\": .5}", "{\"value\": \"\xff\"}"},
         { "", " ", "1", "x", "~", "---", "--- ~", "---\n...\n---\n", "- 1", "- - 1", "- ~", "[]", "{}", "value:", "value: [~]", "value: [[~]]", "value: {value: ~}", "value: &a [*a]", "&a [*a]", "&a {value: *a}", "value: *a", "? [a]\n: b", "? {a: b}\n: c", "1: 2", "~: 1", "value: 1\nvalue: 2", "%", "%YAML 9.9\n---\n1", "\t1", "a: b: c", "'", "\"\\x", "value: !!binary '~'", "value: !!int x", "value: |\n a\n  b\n", "<<: [1]", "<<: *x", "[", "{", "@", "`"},
         { "", " ", "x", "<value/>", "<value></value>", "<value>1</value>", "<a/><b/>", "<value><element/></value>", "<value><value/></value>", "<value><element><element>1</element></element></value>", "<value sequence-value='true'>1</value>", "<?xml version='1.0'?>", "<!DOCTYPE a [<!ENTITY b 'c'>]><value>&b;</value>", "<value>&#xD800;</value>", "<value>&#0;</value>", "<value>&unknown;</value>", "<value><![CDATA[1]]></value>", "<value>1<!-- x -->2</value>", "<!-- -->", "<value", "<value>", "</value>", "<value>1</valu>", "<value a=1/>", "\xff\xfe<\0", "<value>\xff</value>"},
         { "", " ", "x", "=", "=1", "value", "value=", "value=1", "value =1", "value= 1", "[", "]", "[]", "[.]", "[ ]", "[a", "[a]", "[a.]", "[.a]", "[a.b]", "[a.b.c]\n[a.b]\n[a]\n[b]", "[value]", "[value]\nvalue=1", "[value]\n[value]", "[value.value]\nvalue=1", "[value]\n[value.value]\n[value]\n[value.value]", "[b.c]\n[a.c]", "[a.b.c]\n[b.c.d]\n[a.c]", "value=\\", "value=\\x", "value=\\0", ";", "#", "[a]\n[a.b]\n[c.b]\n[a.b.c]"}};
      const int which[] = { json, yaml, xml, ini};
      auto index = enumerate( 4);
      auto format = which[ index];
      auto& document = documents[ index][ enumerate( int( documents[ index].size()))];
      auto policy = Policy( enumerate( 3));
      auto type = enumerate( 12);
      log = std::string{ name_of( format)} + " " + shown( document) + " as " + std::to_string( type);
      switch( type)
      {
         case 0: root< Named< long>>( format, document, policy); break;
         case 1: root< Named< std::string>>( format, document, policy); break;
         case 2: root< Named< std::vector< long>>>( format, document, policy); break;
         case 3: root< std::vector< long>>( format, document, policy); break;
         case 4: root< Named< Named< long>>>( format, document, policy); break;
         case 5: root< Named< std::vector< std::vector< std::string>>>>( format, document, policy); break;
         case 6: root< Named< std::optional< Named< std::vector< Named< long>>>>>>( format, document, policy); break;
         case 7: root< Named< std::map< std::string, long>>>( format, document, policy); break;
         case 8: root< Named< std::tuple< long, long>>>( format, document, policy); break;
         case 9: root< std::tuple< long, std::string>>( format, document, policy); break;
         case 10: root< Shape>( format, document, policy); break;
         case 11: root< Named< Binary>>( format, document, policy); break;
      }
   }

   //! a document that is nested, deep
   void nested( Enumerate& enumerate)
   {
      const int which[] = { json, yaml, xml, ini};
      auto format = which[ enumerate( 4)];
      auto depth = std::vector< int>{ 10, 1000, 100000}[ enumerate( 3)];
      auto kind = enumerate( 2);
      auto policy = Policy( enumerate( 3));
      auto closed = enumerate( 2);
      auto repeated = []( const std::string& text, int count) { std::string result; for( int index = 0; index < count; ++index) result += text; return result;};
      std::string document;
      switch( format)
      {
         case json: document = kind ? repeated( "[", depth) + ( closed ? repeated( "]", depth) : "") : repeated( "{\"value\":", depth) + "1" + ( closed ? repeated( "}", depth) : ""); break;
         // yaml takes a time that is quadratic
         case yaml: if( depth > 1000) depth = 20000; document = kind ? repeated( "[", depth) + ( closed ? repeated( "]", depth) : "") : repeated( "{value: ", depth) + "1" + ( closed ? repeated( "}", depth) : ""); break;
         case xml: document = kind ? repeated( "<element>", depth) + ( closed ? repeated( "</element>", depth) : "") : repeated( "<value>", depth) + "1" + ( closed ? repeated( "</value>", depth) : ""); break;
         case ini: document = "[value" + repeated( ".value", depth) + ( closed ? "]\nvalue=1\n" : ""); break;
      }
      log = std::string{ name_of( format)} + " nested " + std::to_string( depth) + " kind " + std::to_string( kind);
      root< Named< Named< long>>>( format, document, policy);
      root< Named< std::vector< std::vector< long>>>>( format, document, policy);
   }

   // policies

   struct Members { long one = -1; std::string two = "default"; std::vector< long> three{ 7}; Named< long> four{ -4};
      bool operator == ( const Members&) const = default;
      CASUAL_CONST_CORRECT_SERIALIZE( CASUAL_SERIALIZE( one); CASUAL_SERIALIZE( two); CASUAL_SERIALIZE( three); CASUAL_SERIALIZE( four);) };

   //! the document has every subset of the members, and every subset of others
   void policies( Enumerate& enumerate)
   {
      const int which[] = { json, yaml, xml, ini};
      auto format = which[ enumerate( 4)];
      auto present = enumerate( 16);
      auto extra = enumerate( 5);
      auto policy = Policy( enumerate( 3));
      log = std::string{ name_of( format)} + " members " + std::to_string( present) + " others " + std::to_string( extra) + " policy " + std::to_string( policy);
      std::ostringstream out;
      auto has = [&]( int index) { return bool( present & ( 1 << index));};
      switch( format)
      {
         case json:
         {
            std::vector< std::string> parts;
            if( has( 0)) parts.push_back( "\"one\": 1");
            if( has( 1)) parts.push_back( "\"two\": \"2\"");
            if( has( 2)) parts.push_back( "\"three\": [1, 2, 3]");
            if( has( 3)) parts.push_back( extra == 2 ? "\"four\": {\"value\": 4, \"other\": 1}" : "\"four\": {\"value\": 4}");
            if( extra == 1) parts.push_back( "\"other\": 1");
            if( extra == 3) parts.push_back( "\"other\": {\"value\": [1]}");
            if( extra == 4) parts.insert( parts.begin(), "\"other\": [1]");
            out << "{";
            for( auto& part : parts) out << ( &part == parts.data() ? "" : ", ") << part;
            out << "}";
            break;
         }
         case yaml:
            out << "---\n";
            if( extra == 4) out << "other: [1]\n";
            if( has( 0)) out << "one: 1\n";
            if( has( 1)) out << "two: 2\n";
            if( has( 2)) out << "three: [1, 2, 3]\n";
            if( has( 3)) out << "four:\n  value: 4\n" << ( extra == 2 ? "  other: 1\n" : "");
            if( extra == 1) out << "other: 1\n";
            if( extra == 3) out << "other:\n  value: [1]\n";
            if( ! present && ( extra == 0 || extra == 2)) out << "{}\n";
            break;
         case xml:
            out << "<?xml version='1.0'?>\n";
            if( extra == 4) out << "<other><element>1</element></other>";
            if( has( 0)) out << "<one>1</one>\n";
            if( has( 1)) out << "<two>2</two>\n";
            if( has( 2)) out << "<three><element>1</element><element>2</element><element>3</element></three>";
            if( has( 3)) out << "<four><value>4</value>" << ( extra == 2 ? "<other>1</other>" : "") << "</four>";
            if( extra == 1) out << "<other>1</other>\n";
            if( extra == 3) out << "<other><value><element>1</element></value></other>";
            if( ! present && ( extra == 0 || extra == 2)) return;
            break;
         case ini:
            // does not know what is consumed
            if( extra) return;
            if( has( 0)) out << "one=1\n";
            if( has( 1)) out << "two=2\n";
            if( has( 2)) out << "three=1\nthree=2\nthree=3\n";
            if( has( 3)) out << "[four]\nvalue=4\n";
            break;
      }
      Members result;
      bool failed = false;
      std::string what;
      try { decode( format, bytes_of( out.str()), result, policy);}
      catch( ...) { failed = true; what = thrown();}
      vk::evaluated();
      Members expected;
      if( has( 0)) expected.one = 1;
      if( has( 1)) expected.two = "2";
      if( has( 2)) expected.three = { 1, 2, 3};
      if( has( 3)) expected.four.value = 4;
      const bool others = extra == 1 || extra == 3 || extra == 4 || ( extra == 2 && has( 3));
      const bool error = ( policy == strict && present != 15) || ( policy == consumed && others);
      if( failed != error) wrong( std::string{ "policy-"} + name_of( format), ( failed ? "an error: " + what : std::string{ "no error"}) + ", document: " + out.str());
      if( ! failed && result != expected) wrong( std::string{ "policy-"} + name_of( format), "the values are not the ones in the document: " + out.str());
      vk::cover( std::string{ "policy "} + name_of( format) + ( error ? " error" : " value"));
   }

   void body()
   {
      rlimit limit{ 6ul << 30, 6ul << 30};
      setrlimit( RLIMIT_AS, &limit);
      vkc::boot();
      switch( vk::choose( { "basic", "shapes", "broken", "kinds", "structure", "nested", "policies"}, "scenario"))
      {
         case 0:
            every( 2, []( auto& enumerate)
            {
               auto format = enumerate( formats);
               Basic::run( enumerate( Basic::size), enumerate, format);
            });
            break;
         case 1: every( 2, &shapes); break;
         case 2: every( 2, &broken_documents); break;
         case 3: every( 2, &kinds); break;
         case 4: every( 2, &structure); break;
         case 5: every( 5, &nested); break;
         case 6: every( 2, &policies); break;
      }
      vk::finish( "enumerated");
   }
}

int main( int argc, char** argv)
{
   // text is transcoded from and to what the environment says
   ::setenv( "LC_ALL", "C.UTF-8", 1);
   if( ! std::getenv( "VK_LOCALE")) { ::setenv( "VK_LOCALE", "1", 1); ::execv( "/proc/self/exe", argv);}

   return vkc::main( argc, argv, {
      .rule = "every type at its boundary values, and texts of a corpus with every text up to two characters of an alphabet of structural characters, in every placement (member, container, optional, map, tuple, nested), in every format; every composition of a composite with empty and non-empty parts; every truncation, byte removal and byte replacement (alphabet) of documents; documents with other types and structures than what is read; each subset of members with each policy",
      .assumptions = { "the local code set is UTF-8", "documents are at most 1 MB"},
      }, []( const std::string& property)
      {
         if( property == "L01") body();
         vk::broken( "unknown property " + property);
      });
}
