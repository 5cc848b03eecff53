// Generated once: 64-byte windows whose rolling hash (after any run of zero bytes) has exactly the
// given number of leading zeros at its last byte and fewer than 13 before: (tree level, zeros, bytes)
pub const WINDOWS: &[(u8, u32, [u8; 64])] = &[
(0, 20, [118, 207, 51, 57, 106, 30, 243, 49, 73, 223, 229, 220, 59, 147, 167, 52, 112, 114, 136, 41, 208, 109, 92, 80, 44, 205, 227, 41, 24, 23, 246, 167, 16, 46, 157, 173, 109, 136, 169, 239, 106, 107, 82, 16, 129, 162, 8, 10, 194, 130, 16, 244, 205, 68, 60, 112, 156, 72, 26, 160, 243, 157, 135, 123]),
(0, 20, [188, 185, 173, 90, 181, 86, 166, 19, 179, 151, 9, 225, 247, 223, 41, 101, 186, 35, 187, 190, 174, 54, 44, 43, 144, 195, 138, 214, 46, 99, 50, 17, 48, 55, 55, 50, 88, 171, 37, 112, 9, 181, 26, 250, 24, 153, 239, 88, 6, 185, 236, 54, 81, 27, 161, 192, 95, 150, 239, 193, 82, 37, 192, 147]),
(1, 21, [135, 158, 33, 15, 21, 124, 28, 171, 188, 139, 45, 166, 67, 108, 176, 150, 22, 184, 12, 237, 102, 0, 89, 248, 18, 104, 95, 23, 40, 186, 116, 233, 24, 171, 37, 9, 16, 165, 144, 194, 190, 132, 208, 238, 117, 238, 6, 38, 102, 97, 193, 46, 75, 50, 3, 104, 135, 249, 240, 219, 132, 88, 22, 245]),
(1, 21, [8, 208, 115, 33, 136, 98, 59, 111, 218, 78, 182, 127, 13, 47, 195, 246, 163, 63, 218, 124, 119, 54, 20, 167, 165, 93, 129, 221, 142, 159, 117, 106, 71, 238, 171, 145, 204, 220, 27, 225, 242, 168, 100, 222, 158, 144, 0, 134, 107, 24, 39, 131, 67, 155, 75, 108, 243, 159, 52, 176, 139, 27, 74, 130]),
(1, 27, [29, 74, 73, 18, 152, 217, 216, 153, 100, 190, 173, 165, 174, 161, 129, 20, 177, 7, 114, 217, 106, 11, 80, 68, 105, 93, 135, 168, 148, 111, 35, 166, 115, 21, 37, 189, 186, 221, 197, 208, 13, 75, 111, 247, 97, 215, 4, 9, 233, 241, 57, 173, 137, 7, 55, 43, 29, 70, 198, 240, 156, 164, 18, 178]),
(1, 27, [21, 104, 112, 107, 186, 0, 116, 234, 252, 156, 253, 1, 226, 137, 197, 233, 226, 88, 13, 124, 157, 197, 139, 1, 82, 132, 150, 139, 76, 30, 232, 63, 219, 21, 85, 239, 49, 58, 212, 93, 50, 87, 148, 206, 3, 174, 102, 223, 143, 161, 161, 50, 21, 43, 189, 48, 152, 109, 74, 220, 56, 62, 128, 28]),
(2, 28, [6, 96, 1, 48, 96, 172, 167, 182, 185, 142, 228, 135, 27, 37, 36, 166, 11, 145, 140, 90, 243, 101, 53, 153, 125, 190, 235, 174, 185, 42, 110, 52, 190, 247, 225, 34, 132, 16, 251, 246, 38, 231, 219, 52, 81, 46, 195, 42, 127, 31, 196, 229, 228, 111, 220, 206, 201, 190, 4, 40, 49, 141, 192, 13]),
(2, 28, [89, 143, 228, 183, 185, 30, 151, 195, 80, 24, 97, 209, 112, 138, 220, 13, 134, 166, 185, 233, 92, 0, 250, 156, 128, 88, 97, 78, 110, 122, 13, 96, 179, 189, 157, 49, 153, 77, 204, 168, 123, 128, 191, 219, 132, 45, 151, 228, 162, 104, 170, 149, 158, 32, 129, 1, 209, 65, 180, 137, 29, 239, 92, 74]),
(2, 34, [14, 114, 236, 61, 249, 7, 8, 176, 150, 74, 220, 107, 21, 78, 7, 77, 121, 191, 139, 21, 15, 134, 188, 42, 213, 9, 245, 22, 148, 65, 207, 19, 40, 247, 4, 140, 210, 199, 112, 47, 48, 83, 153, 50, 26, 96, 207, 94, 41, 138, 223, 107, 22, 63, 227, 75, 86, 71, 38, 205, 202, 255, 96, 168]),
(2, 34, [189, 30, 177, 227, 78, 71, 135, 160, 241, 229, 241, 14, 4, 107, 65, 204, 158, 204, 11, 207, 36, 103, 175, 135, 116, 140, 203, 69, 179, 233, 164, 95, 220, 138, 65, 213, 101, 197, 226, 229, 188, 34, 37, 190, 38, 174, 112, 42, 80, 1, 77, 106, 252, 203, 70, 140, 4, 43, 101, 7, 86, 197, 151, 31]),
(3, 35, [198, 235, 73, 181, 118, 23, 207, 88, 51, 174, 27, 246, 5, 222, 165, 55, 29, 14, 163, 116, 255, 217, 127, 40, 111, 60, 147, 160, 241, 217, 87, 165, 217, 175, 174, 174, 86, 124, 15, 39, 125, 21, 33, 231, 72, 248, 48, 235, 144, 91, 88, 218, 212, 32, 210, 99, 193, 191, 122, 220, 99, 61, 73, 60]),
(3, 35, [118, 194, 99, 93, 188, 48, 254, 112, 182, 236, 106, 47, 97, 149, 204, 91, 164, 240, 168, 103, 156, 1, 122, 253, 17, 26, 207, 156, 18, 36, 190, 48, 195, 206, 251, 11, 91, 23, 222, 30, 120, 10, 223, 117, 21, 130, 70, 164, 40, 224, 139, 192, 120, 79, 93, 41, 222, 13, 55, 235, 206, 77, 49, 94]),
(3, 41, [142, 74, 67, 114, 157, 245, 9, 216, 218, 106, 249, 185, 14, 60, 21, 92, 66, 23, 231, 163, 170, 64, 180, 217, 124, 208, 88, 44, 213, 79, 188, 158, 48, 52, 232, 237, 117, 0, 90, 28, 188, 197, 185, 169, 128, 161, 231, 49, 178, 149, 161, 229, 81, 22, 22, 23, 221, 253, 33, 113, 32, 173, 193, 240]),
(3, 41, [155, 23, 132, 69, 152, 133, 12, 155, 8, 107, 118, 146, 42, 67, 226, 169, 165, 186, 229, 242, 64, 98, 202, 85, 136, 111, 204, 32, 20, 134, 136, 49, 123, 245, 231, 7, 126, 205, 36, 147, 208, 211, 90, 158, 155, 41, 14, 168, 82, 66, 80, 158, 156, 246, 24, 5, 82, 245, 0, 250, 28, 35, 214, 254]),
(4, 44, [133, 61, 84, 32, 79, 128, 25, 10, 136, 74, 168, 115, 81, 172, 21, 3, 123, 157, 135, 189, 172, 194, 181, 142, 80, 187, 177, 106, 9, 192, 231, 93, 224, 18, 100, 58, 89, 81, 46, 28, 189, 33, 200, 209, 69, 194, 188, 195, 66, 224, 166, 185, 88, 103, 24, 197, 216, 175, 252, 231, 211, 155, 107, 30]),
(4, 42, [178, 5, 227, 79, 201, 159, 246, 78, 59, 219, 247, 208, 82, 14, 17, 0, 200, 103, 34, 197, 151, 249, 76, 52, 131, 178, 202, 113, 139, 52, 60, 250, 40, 239, 207, 106, 35, 16, 232, 247, 72, 232, 104, 82, 6, 255, 57, 241, 216, 191, 92, 145, 158, 42, 100, 242, 251, 216, 147, 54, 28, 202, 143, 200]),
(4, 44, [220, 208, 54, 106, 0, 50, 163, 56, 79, 61, 44, 160, 130, 78, 25, 35, 226, 152, 214, 216, 67, 40, 118, 17, 182, 81, 15, 151, 16, 78, 80, 165, 20, 222, 165, 149, 229, 69, 104, 47, 18, 156, 80, 100, 224, 45, 96, 252, 131, 63, 171, 190, 182, 9, 166, 232, 237, 157, 224, 138, 143, 143, 158, 211]),
(4, 42, [246, 193, 200, 10, 110, 199, 217, 169, 27, 179, 146, 213, 88, 132, 78, 246, 235, 229, 232, 101, 9, 119, 60, 153, 225, 151, 212, 34, 220, 38, 103, 253, 69, 138, 21, 245, 69, 85, 103, 140, 247, 3, 195, 220, 152, 71, 186, 225, 174, 9, 131, 116, 102, 20, 118, 255, 56, 128, 243, 169, 48, 22, 254, 203]),
(4, 45, [206, 17, 70, 67, 71, 203, 61, 143, 219, 110, 189, 197, 242, 66, 31, 238, 240, 169, 75, 51, 138, 187, 178, 130, 219, 173, 149, 115, 62, 230, 198, 61, 243, 5, 68, 165, 176, 217, 157, 223, 58, 20, 18, 123, 187, 106, 87, 194, 239, 74, 178, 68, 212, 151, 44, 210, 250, 148, 112, 168, 8, 77, 73, 154]),
(4, 43, [210, 19, 28, 168, 141, 44, 128, 219, 27, 64, 97, 224, 12, 3, 195, 212, 128, 64, 129, 146, 218, 21, 55, 184, 184, 77, 208, 50, 184, 43, 155, 113, 6, 8, 162, 229, 97, 105, 104, 235, 237, 154, 108, 15, 195, 179, 49, 207, 153, 62, 35, 172, 25, 165, 245, 123, 10, 56, 32, 231, 148, 187, 201, 180]),
(4, 45, [32, 45, 177, 230, 220, 252, 26, 217, 146, 223, 140, 120, 197, 143, 17, 60, 135, 34, 45, 161, 132, 53, 29, 100, 130, 228, 249, 3, 237, 170, 38, 181, 216, 254, 83, 107, 33, 64, 189, 43, 229, 175, 146, 77, 14, 172, 88, 128, 26, 22, 237, 70, 89, 229, 20, 64, 178, 89, 23, 85, 203, 82, 53, 127]),
];
