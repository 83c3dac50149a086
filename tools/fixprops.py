{"Escape names": "C02", "Use value type": "C02", "Generate valid literal": "C06", "Do not override read error": "C03", "Allow list element": "C01", "Do not count pseudo": "C06", "Calculate expected length": "C06", "Preserve precision": "C01", "Do not use optimized variant": "C01", "Do not bypass custom read": "C13", "Escape enum display names": "C02", "Do not use special values that": "C06", "Do not map names of enum": "C06", "Order variants without": "C02", "Recognise deprecated valid": "C02", "Do not check valid ranges of floats": "C02", "Respect version dependent ranges": "C02", "Keep values of enum fields": "C06", "Use proper destructor": "C03", "Use proper type prefix": "C03", "Do not truncate values": "C03", "Do not fail on big": "C03", "Keep remaining length": "C03", "Respect failOnInvalid": "C03", "Generate compilable code when construct": "C03", "Output customization options of frame": "C04", "Respect order of suffix": "C04", "Don't require protocol options": "C04", "Generate message bundles for namespaces": "C06", "Reference interfaces and messages of nested": "C05", "Use full scope of nested namespaces": "C05", "Use type of the listed ids": "C05", "Use valid literal for message ids": "C05", "Include headers used by the specials": "C06", "Prevent comments ending": "C06", "Use main namespace in the options": "C06", "Do not form trigraphs": "C06", "Read the whole text": "C10", "Allow replacing of multiple": "C09", "Verify validateMinLength": "C09", "Verify references between siblings after replacing": "C09", "Verify reused aliases": "C09", "Verify reused validity": "C09", "Update bitLength of reused": "C09", "Verify references between siblings after removing": "C09", "Report failure to": "C12", "Read replacing code of the plugin": "C11"}