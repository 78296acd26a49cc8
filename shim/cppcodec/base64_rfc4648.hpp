// Stand-in for cppcodec's base64_rfc4648 (third party, not available here): the
// four-argument encode and decode that casual uses, RFC 4648 with padding.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>

namespace cppcodec
{
   struct parse_error : std::domain_error { using std::domain_error::domain_error; };

   struct base64_rfc4648
   {
      static std::size_t encode( char* out, std::size_t capacity, const char* in, std::size_t size)
      {
         static const char* alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
         if( ( size + 2) / 3 * 4 > capacity) std::abort();
         auto byte = [&]( std::size_t i) -> std::uint32_t { return i < size ? static_cast< unsigned char>( in[ i]) : 0; };
         std::size_t n = 0;
         for( std::size_t i = 0; i < size; i += 3)
         {
            auto v = byte( i) << 16 | byte( i + 1) << 8 | byte( i + 2);
            out[ n++] = alphabet[ v >> 18 & 63];
            out[ n++] = alphabet[ v >> 12 & 63];
            out[ n++] = i + 1 < size ? alphabet[ v >> 6 & 63] : '=';
            out[ n++] = i + 2 < size ? alphabet[ v & 63] : '=';
         }
         return n;
      }

      static std::size_t decode( char* out, std::size_t capacity, const char* in, std::size_t size)
      {
         auto value = []( char c) -> int
         {
            if( c >= 'A' && c <= 'Z') return c - 'A';
            if( c >= 'a' && c <= 'z') return c - 'a' + 26;
            if( c >= '0' && c <= '9') return c - '0' + 52;
            if( c == '+') return 62;
            if( c == '/') return 63;
            return -1;
         };
         if( size % 4) throw parse_error{ "base64: invalid length"};
         std::size_t n = 0;
         for( std::size_t i = 0; i < size; i += 4)
         {
            int pad = 0;
            std::uint32_t v = 0;
            for( int k = 0; k < 4; ++k)
            {
               auto c = in[ i + k];
               if( c == '=' && i + 4 == size && k >= 2) { ++pad; v <<= 6; continue; }
               auto d = value( c);
               if( d < 0 || pad) throw parse_error{ "base64: invalid symbol"};
               v = v << 6 | static_cast< std::uint32_t>( d);
            }
            for( int k = 0; k < 3 - pad; ++k)
            {
               if( n >= capacity) std::abort();
               out[ n++] = static_cast< char>( v >> ( 16 - 8 * k) & 0xff);
            }
         }
         return n;
      }
   };
}
