#pragma once
#include <exception>
#include <cstddef>
namespace rapidxml {
const int parse_default = 0;
class parse_error : public std::exception { public: const char* what() const noexcept override; template<class Ch> Ch* where() const; };
template<class Ch = char> class xml_base { public: Ch* name() const; std::size_t name_size() const; Ch* value() const; std::size_t value_size() const; };
template<class Ch = char> class xml_attribute : public xml_base<Ch> { public: xml_attribute<Ch>* next_attribute( const Ch* name = 0 ) const; };
template<class Ch = char> class xml_node : public xml_base<Ch> { public:
  xml_node<Ch>* first_node( const Ch* name = 0 ) const; xml_node<Ch>* next_sibling( const Ch* name = 0 ) const;
  xml_node<Ch>* last_node( const Ch* name = 0 ) const; xml_node<Ch>* parent() const;
  xml_attribute<Ch>* first_attribute( const Ch* name = 0 ) const; xml_attribute<Ch>* last_attribute( const Ch* name = 0 ) const; };
template<class Ch = char> class xml_document : public xml_node<Ch> { public: template<int F> void parse( Ch* text ); void clear(); };
}
