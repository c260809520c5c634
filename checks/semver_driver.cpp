// Reads lists of version numbers, one list per line, and prints how the package manager's version class compares them.

#include <iostream>
#include <sstream>
#include <vector>

#include <SemVer/Version.h>

int main()
{
	std::string line;
	while ( std::getline( std::cin, line ) ) {
		std::istringstream in( line );
		std::vector<std::string> texts;
		std::string text;
		while ( in >> text ) {
			texts.push_back( text );
		}

		for ( const auto& a : texts ) {
			SemanticVersionNumber x( a );
			std::cout << x.toString() << ( x.isValid() ? " valid " : " invalid " ) << x.nextMajor().toString() << " " << x.nextMinor().toString() << " " << x.nextBugfix().toString() << std::endl;

			for ( const auto& b : texts ) {
				SemanticVersionNumber y( b );
				std::cout << ( x < y ) << ( x == y ) << ( x != y ) << ( x < b ) << ( x == b ) << ( x != b ) << std::endl;
			}
		}
	}

	return 0;
}
