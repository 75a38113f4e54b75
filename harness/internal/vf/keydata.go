// Code generated by tools; test keys only. DO NOT EDIT.
package vf

var KeyR0 = &Key{Name: "R0", Type: "rsa",
	CertStr: "\x30\x82\x03\x24\x30\x82\x02\x0c\xa0\x03\x02\x01\x02\x02\x01\x64\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x52\x30\x30\x20\x17\x0d\x32\x36\x31\x31\x31\x39\x32\x32\x31\x31\x33\x32\x5a\x18\x0f\x32\x30\x35\x31\x30\x37\x31\x31\x32\x32\x31\x31\x33\x32\x5a\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x52\x30\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xb8\x9a\x4c\x31\x89\x2f\x5a\x69\x66\x87\xef\x46\xc7\xc9\x05\x1f\x39\x8c\x48\x82\x9f\x94\x7f\xa8\x3b\x47\x2c\x27\x10\x90\xda\x7d\x25\xa8\x3b\x6f\x77\xa2\x02\x3b\x9e\xba\x28\x81\x5c\x82\xc6\x24\xee\x30\x15\xab\xd7\xa1\xfc\x79\xd6\x0f\x07\xb8\xa6\xc2\x4f\x7b\x14\x7a\xd8\xe5\x31\xae\x6a\xb8\x4f\x9c\x8e\x7d\x7d\x91\x0d\x7c\xd0\xef\xca\xd2\x88\x2e\x58\xd5\x01\x03\xd2\x03\x34\x88\xf7\x75\x68\x35\x07\x96\xf7\x70\x62\xc7\x85\x06\x61\x80\xce\x9e\x39\x06\x94\x57\xe6\x60\xc9\x23\x40\x28\x18\x82\x8f\xe5\xf3\xbb\x22\x50\x94\xc4\xc9\x23\xd3\x2c\x06\x3a\x61\x9a\xc6\x48\x10\xa9\x85\xb0\x52\xc1\x15\x5d\xbb\x09\x7d\xea\x17\x50\x52\x4e\xd5\x4f\x5d\x95\x72\x7f\x3b\x7e\x92\x98\xa4\x18\x09\x28\x7c\xdf\xca\x0d\x6b\x71\x46\x9f\x78\x06\xb9\x02\x2e\x2e\x62\x42\x88\x12\x1c\x70\xa9\x95\xee\x8b\x2a\x4d\x8d\xc0\xc4\xf8\x65\xdb\x08\x3d\xce\xd9\x97\x13\x9a\xfd\x3a\x8b\x58\xd4\x37\x7c\x81\x66\xec\xf2\x6f\x08\x28\x1f\x72\x0a\x29\xd5\xd3\x01\xd2\x91\xe2\x54\x8c\xc7\xaf\x79\x3d\x50\xf1\xad\x67\x22\xd1\x57\x28\xfe\xc5\x1c\xc5\x52\x8e\x48\xde\x27\x02\x03\x01\x00\x01\xa3\x53\x30\x51\x30\x1d\x06\x03\x55\x1d\x0e\x04\x16\x04\x14\xbf\x2e\x1d\xaa\xeb\xeb\x90\x07\xbf\xe7\xff\x7b\x96\xd4\x6d\x4e\xb2\xfb\x2d\x48\x30\x1f\x06\x03\x55\x1d\x23\x04\x18\x30\x16\x80\x14\xbf\x2e\x1d\xaa\xeb\xeb\x90\x07\xbf\xe7\xff\x7b\x96\xd4\x6d\x4e\xb2\xfb\x2d\x48\x30\x0f\x06\x03\x55\x1d\x13\x01\x01\xff\x04\x05\x30\x03\x01\x01\xff\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x03\x82\x01\x01\x00\x98\x09\xe8\xad\xf0\x3f\xd9\xb3\x30\x02\xca\x18\xd3\x62\xb7\xd3\x0d\x72\x55\x3b\xe8\x93\x83\x90\x39\x7b\x36\xe5\x0d\x16\x55\x35\xa2\xdc\xcf\x7b\x2c\x4b\xbb\xf3\x17\x09\xc8\x3a\x6c\xba\xec\x50\x88\xf7\x9f\x1b\xc4\xfe\x97\x0b\x13\xed\x8e\xf5\x99\x65\xe7\x7a\xbc\x47\xa6\x03\x0d\xda\x2f\xb2\xd8\x12\xed\xf0\x86\x27\x8d\xaa\x87\x85\x50\x23\x18\xfe\xad\x8b\x1e\x8c\xcf\x55\x8f\x5c\x4d\x64\x58\xc9\xe9\xfc\x77\x82\x22\xaf\xef\xd2\xf8\x7c\xdc\xfa\x7e\x6e\xf1\x76\x83\xd2\xe8\xf3\x92\x02\xcb\xe3\x70\xd8\xd3\x54\x91\x3a\x53\x96\xa4\x4b\x7d\x53\xbe\x36\x7e\x9a\x56\x35\x49\x22\xf5\x1e\x42\x33\x52\x85\x60\x98\x4c\x44\x32\xba\xb5\xe7\xf1\x7b\xce\xc3\x09\xb2\xc8\xab\x6d\xac\x48\x45\x84\xb3\xff\x00\xc9\xcc\x7a\x8c\x66\x49\x92\x1d\x1b\xa0\x6b\xa4\xe1\xb5\x75\x32\xa5\x87\x87\x9d\xc7\x7c\x24\x6a\xc6\x40\xb2\xb2\xa0\x8f\x8a\x34\xe1\x46\xf0\x76\xa4\x70\xb3\x8c\x83\xd9\xf8\x64\x1f\x58\x0f\x5e\x1a\xdf\x0f\xc0\x71\x8c\x4f\x7a\x09\xff\xd7\x36\x10\xfa\x4b\x5f\xaa\x9b\x5c\xcb\xc4\xf0\xba\xf6\xb9\x64\xa0\x91\xab\xff\x46\xdb\x8f\xb8\x85\x33",
	SPKIStr: "\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xb8\x9a\x4c\x31\x89\x2f\x5a\x69\x66\x87\xef\x46\xc7\xc9\x05\x1f\x39\x8c\x48\x82\x9f\x94\x7f\xa8\x3b\x47\x2c\x27\x10\x90\xda\x7d\x25\xa8\x3b\x6f\x77\xa2\x02\x3b\x9e\xba\x28\x81\x5c\x82\xc6\x24\xee\x30\x15\xab\xd7\xa1\xfc\x79\xd6\x0f\x07\xb8\xa6\xc2\x4f\x7b\x14\x7a\xd8\xe5\x31\xae\x6a\xb8\x4f\x9c\x8e\x7d\x7d\x91\x0d\x7c\xd0\xef\xca\xd2\x88\x2e\x58\xd5\x01\x03\xd2\x03\x34\x88\xf7\x75\x68\x35\x07\x96\xf7\x70\x62\xc7\x85\x06\x61\x80\xce\x9e\x39\x06\x94\x57\xe6\x60\xc9\x23\x40\x28\x18\x82\x8f\xe5\xf3\xbb\x22\x50\x94\xc4\xc9\x23\xd3\x2c\x06\x3a\x61\x9a\xc6\x48\x10\xa9\x85\xb0\x52\xc1\x15\x5d\xbb\x09\x7d\xea\x17\x50\x52\x4e\xd5\x4f\x5d\x95\x72\x7f\x3b\x7e\x92\x98\xa4\x18\x09\x28\x7c\xdf\xca\x0d\x6b\x71\x46\x9f\x78\x06\xb9\x02\x2e\x2e\x62\x42\x88\x12\x1c\x70\xa9\x95\xee\x8b\x2a\x4d\x8d\xc0\xc4\xf8\x65\xdb\x08\x3d\xce\xd9\x97\x13\x9a\xfd\x3a\x8b\x58\xd4\x37\x7c\x81\x66\xec\xf2\x6f\x08\x28\x1f\x72\x0a\x29\xd5\xd3\x01\xd2\x91\xe2\x54\x8c\xc7\xaf\x79\x3d\x50\xf1\xad\x67\x22\xd1\x57\x28\xfe\xc5\x1c\xc5\x52\x8e\x48\xde\x27\x02\x03\x01\x00\x01",
	PrivStr: "\x30\x82\x04\xbc\x02\x01\x00\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x04\x82\x04\xa6\x30\x82\x04\xa2\x02\x01\x00\x02\x82\x01\x01\x00\xb8\x9a\x4c\x31\x89\x2f\x5a\x69\x66\x87\xef\x46\xc7\xc9\x05\x1f\x39\x8c\x48\x82\x9f\x94\x7f\xa8\x3b\x47\x2c\x27\x10\x90\xda\x7d\x25\xa8\x3b\x6f\x77\xa2\x02\x3b\x9e\xba\x28\x81\x5c\x82\xc6\x24\xee\x30\x15\xab\xd7\xa1\xfc\x79\xd6\x0f\x07\xb8\xa6\xc2\x4f\x7b\x14\x7a\xd8\xe5\x31\xae\x6a\xb8\x4f\x9c\x8e\x7d\x7d\x91\x0d\x7c\xd0\xef\xca\xd2\x88\x2e\x58\xd5\x01\x03\xd2\x03\x34\x88\xf7\x75\x68\x35\x07\x96\xf7\x70\x62\xc7\x85\x06\x61\x80\xce\x9e\x39\x06\x94\x57\xe6\x60\xc9\x23\x40\x28\x18\x82\x8f\xe5\xf3\xbb\x22\x50\x94\xc4\xc9\x23\xd3\x2c\x06\x3a\x61\x9a\xc6\x48\x10\xa9\x85\xb0\x52\xc1\x15\x5d\xbb\x09\x7d\xea\x17\x50\x52\x4e\xd5\x4f\x5d\x95\x72\x7f\x3b\x7e\x92\x98\xa4\x18\x09\x28\x7c\xdf\xca\x0d\x6b\x71\x46\x9f\x78\x06\xb9\x02\x2e\x2e\x62\x42\x88\x12\x1c\x70\xa9\x95\xee\x8b\x2a\x4d\x8d\xc0\xc4\xf8\x65\xdb\x08\x3d\xce\xd9\x97\x13\x9a\xfd\x3a\x8b\x58\xd4\x37\x7c\x81\x66\xec\xf2\x6f\x08\x28\x1f\x72\x0a\x29\xd5\xd3\x01\xd2\x91\xe2\x54\x8c\xc7\xaf\x79\x3d\x50\xf1\xad\x67\x22\xd1\x57\x28\xfe\xc5\x1c\xc5\x52\x8e\x48\xde\x27\x02\x03\x01\x00\x01\x02\x82\x01\x00\x1c\x2e\x2d\xc8\x78\x15\x3a\xfb\x91\x13\xda\x42\x97\x58\x08\x08\xa2\xbb\xd8\x0b\xdc\xb9\x8a\x1d\x4f\xe3\x47\x09\xb5\x9d\x2f\x45\x60\x7c\xc4\x89\xf9\x1c\xc9\xb3\x79\x41\x18\xd2\xda\xa0\xfa\x07\x84\x36\xe1\xf0\x08\x2c\x69\xc2\xdd\x9b\x10\xc6\x2e\xea\xc5\xc0\x57\xb9\x83\x27\xc5\xc4\x46\xf5\x58\xed\xe0\xd0\xa6\x5d\x00\xce\x97\x84\xab\x95\x25\x05\xd2\x38\xbd\xfd\x6b\xcf\x62\x73\x30\x37\x83\x8f\x68\xd7\xb2\x71\x3d\x1b\x11\x23\x0e\xba\x5f\x90\x46\xcb\x4a\xd4\xfa\x4d\xb7\x16\xc3\x01\xfb\xef\xde\x70\xaf\x9a\xd7\x1b\x6c\x4a\x18\x33\xb4\xa0\xd8\x51\x3b\x88\x5e\xe4\x50\xe2\xa8\x94\xf2\xa4\x02\x43\x14\x24\xa8\xcb\x18\xb6\x07\xaa\x1b\xdb\x8c\x26\x09\x06\xb2\x9f\x4d\x01\xe5\xe6\xf9\x3c\x25\xdf\x3f\xd7\x0e\x6f\xd0\x48\xa3\xe7\x85\x78\x93\xfd\xaa\x83\xd6\x48\xaa\x73\x6f\xcb\x52\x35\xd8\x06\x19\x8e\xbc\xb5\x9c\x3c\x02\xee\x80\xcc\x55\x37\x20\x83\x94\x90\xe2\x77\x6d\xde\x56\x55\x17\x6b\x3f\xb3\x89\x5b\x0b\xaa\x1c\x51\x24\x1c\xad\x13\x4f\x75\x4e\x2e\x8f\x10\x22\xb1\x96\xc2\x1c\x46\x81\x67\xc2\x95\xe7\xc3\xdb\xb9\xc8\xc0\xdd\xed\x02\x81\x81\x00\xf0\xd4\x70\xfd\xba\xb4\x0f\x0c\xd0\x63\xbe\x6c\x99\xcf\x2d\xd8\x80\x7a\x32\x80\x8d\x5d\x8e\x63\xac\x52\x14\x53\x80\xb6\x9b\x0e\x11\x83\xb5\x74\x89\x96\x31\x6b\xa1\xc7\x88\x26\xd9\x2a\x5f\x50\x6c\x12\x1c\x0b\xb4\x5c\x13\xc1\x7e\xda\x59\x61\x5c\xce\xe1\xad\xe3\xa4\x9a\xeb\x71\xcc\x5a\x59\xec\xa7\x6f\x20\x1e\x74\x15\x72\xbe\x6d\x0b\xf9\x31\x68\x1e\x9c\x60\x6d\x0c\xb4\x5a\x78\xe6\xde\xd0\x7a\x82\xd9\x3b\xf2\xd4\xd4\xa9\xb4\x6e\x11\x53\xa7\x71\xd0\xb1\x5e\x47\x01\x3b\xf8\x33\x58\xbb\xf0\x3c\xfd\xe5\x0f\x46\x03\x02\x81\x81\x00\xc4\x3b\x27\x09\x6d\x93\x1a\x80\x3c\x14\x55\xaa\xc6\x6b\xc3\x6a\x11\x12\x78\x7d\x8b\x3a\xd6\x0e\xd7\xc4\x3c\x77\xee\xda\x57\xcf\x57\x8c\x14\xf9\xfc\xe6\xaf\xce\xc0\xbb\x09\x97\xab\xa6\x41\x3d\x95\x7d\x73\x84\x8f\x38\x82\x3b\x48\xed\xdf\xe3\xff\x0c\xe6\x9b\x22\xe2\xb7\x40\x64\xef\xf1\xc8\x04\x8d\xa7\x0c\x6c\x79\xdf\xdb\xe6\xb0\xe1\xc7\xe0\x4d\xc7\x6e\xee\xd9\x9d\x7f\xc0\x05\x4e\x50\x33\x80\x46\x2a\x8c\x7e\xc5\x09\x10\x89\xc3\xcc\xc7\xdc\xa6\x92\x30\xa1\x8b\x8f\xbc\xbe\xac\x6c\x42\xc7\x99\x57\xe9\x4b\x70\x0d\x02\x81\x80\x02\xbb\xe6\xac\x7a\xba\x20\x91\x9c\xac\x05\x35\x66\x69\x9b\xb3\xa1\x81\xc1\xa1\x03\xf9\xd3\xeb\xfd\xc0\xd0\xca\x41\xe3\xd0\xce\xd0\x14\x16\xb3\x43\xfc\x98\x83\x08\x4b\x23\x98\x8d\x4e\x95\xd6\x6b\xe3\xa8\xbd\xd9\x46\x52\x53\x18\x05\x92\x8e\x30\x67\x88\xd8\x58\x85\x3d\xdc\xfe\x65\xbb\x80\xd9\xd6\xec\xc4\x08\x94\x78\xc9\xdc\xaf\x90\x3b\x3b\xfc\x5a\x9c\x9b\xdb\xa1\x11\x4b\x15\xa4\x49\x53\x44\x90\xc7\xb6\x8e\x83\x2c\x06\xe1\x2d\x7e\xb4\xdc\x69\xc6\x5c\xbd\x1d\x41\x3e\x55\x0b\x00\x2e\xe2\x03\x4f\x3e\x92\x75\xd1\x02\x81\x80\x5b\xe0\x8a\x55\x8a\xbd\x6e\x92\x0e\x0f\x43\x51\x13\x58\x4f\x85\xb0\xfa\xa1\xf9\xbe\x1f\xcd\x2b\xe3\xf0\x98\x93\x5a\xfd\x56\x51\xd9\x5e\xd8\x4f\x78\x0f\x16\xcf\xca\x43\x88\xa9\x40\x10\x36\xc9\xbb\xdd\xa2\x21\xb5\xe1\x32\x70\xc9\xa3\xbe\xc9\x84\x98\xa8\xbc\x88\x67\xf8\x7f\x29\x03\x83\x84\x30\x45\x96\xaa\x65\x7b\xe6\xc9\x92\x48\xcd\x5e\x05\x72\xc5\x66\xf6\x64\x63\xae\xf5\xdc\x46\x1f\x9d\x0d\x79\x4c\xe0\xbd\x56\x49\xf9\x39\x57\xb8\xe0\xf7\x39\xf2\x86\xdc\x8c\x78\xbf\x59\xd3\x67\x59\x19\x15\x7e\x28\xd8\x4e\x5d\x02\x81\x80\x0e\xcc\xd7\x4d\x06\xdc\xa7\xed\x2c\xb9\xc8\x16\xd4\x2d\x89\x3d\x3a\x9e\x75\x35\xea\x5f\xf8\xf6\x8e\x77\x98\x5a\xd8\xb2\x56\x6b\x03\x90\xdc\x2d\x74\x10\x56\x66\xfc\x6d\x8a\xdf\x2f\xaa\x06\x37\xf4\x63\xa1\x2f\xd5\x74\x68\xd5\x6e\xd4\xdc\x22\xd0\x40\xeb\xab\xae\xae\xcb\x99\x76\xd4\xd5\x93\x1c\x62\xf7\x87\x73\xfe\x25\xae\x02\x4f\x4b\xad\xb2\xb3\xa7\x4e\xf2\x48\x26\x25\x21\xaa\x87\x93\xc0\xc4\x5f\x51\xa4\xad\x2d\x58\x60\x8c\x39\xc2\x76\x3a\x0d\xc5\x4f\x0c\xd9\xa8\x0b\xe4\xbb\xf9\x29\x01\xde\xdb\x00\x60\x08\x4b"}

var KeyR1 = &Key{Name: "R1", Type: "rsa",
	CertStr: "\x30\x82\x03\x24\x30\x82\x02\x0c\xa0\x03\x02\x01\x02\x02\x01\x65\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x52\x31\x30\x20\x17\x0d\x32\x36\x31\x31\x31\x39\x32\x32\x31\x31\x33\x33\x5a\x18\x0f\x32\x30\x35\x31\x30\x37\x31\x31\x32\x32\x31\x31\x33\x33\x5a\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x52\x31\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xb2\xd0\x2b\x83\x9e\x6e\x2b\xbd\x38\x27\xf4\x71\x93\xef\xfc\xad\xa5\x36\x76\xcd\xc2\xab\xfb\x13\x74\x2a\xbe\xdf\x88\x7e\x09\xc1\x8a\x79\x24\xf4\xac\x19\x47\x8f\x0d\x40\xd3\x66\xae\x91\x17\x68\x89\xf4\x4c\xbe\x33\x7b\x45\xbe\x34\x11\x3e\xbd\x8b\x67\xfb\x5b\xa2\x1e\xfb\x65\x27\x73\xff\xf1\x7c\x74\x02\xc3\x79\xb5\x4f\x99\x2c\xdb\xa6\xb7\x01\xde\x80\x89\x1b\xd4\xc3\x44\x81\xc7\x3a\x62\x39\x57\xe3\x9c\xa0\xaf\x69\x62\x42\xbf\x8c\xe1\x34\x75\xe9\xf2\x4d\x0f\x99\xf1\x28\x94\x73\xd7\xc9\xb7\x92\xf5\x75\x26\xdf\xd4\x80\xfc\x05\xa3\x8c\xf9\x6f\xfc\x2b\x8e\x9c\x46\x44\xfb\x99\x36\x01\xc1\x10\x9a\x4b\x26\xf3\xbb\x3b\xdd\x9a\xe1\x44\xfc\xfe\x4e\x23\x8f\xe7\xe9\xd9\xe7\xc7\x3d\x22\xff\xde\x56\xec\x02\x5a\xec\xd0\x61\xf6\x48\x20\x1d\x47\xee\xd3\x2f\xcb\x3e\xab\x15\xa7\xec\x73\x29\x04\x66\xef\x09\x25\x54\x2a\x29\x0a\x7a\xf6\xe3\xd5\x23\x57\x1d\xaa\xcb\xb9\xb1\x3a\x81\xd7\x92\x7d\xf9\xf5\x9a\x7a\xcb\x07\xe0\x9e\x8c\x0f\x45\x0e\x6d\xc2\x89\xca\x0c\xa3\x95\xac\x58\xf1\xda\x82\xec\xf9\xff\xff\x77\x45\xf3\x0b\x46\x39\xb8\x9f\x71\x02\x03\x01\x00\x01\xa3\x53\x30\x51\x30\x1d\x06\x03\x55\x1d\x0e\x04\x16\x04\x14\xd3\x59\x0f\xd3\xd7\x62\x1d\xa6\x9d\xaf\xef\xbe\x47\x8e\x64\x93\xec\x04\xcc\x78\x30\x1f\x06\x03\x55\x1d\x23\x04\x18\x30\x16\x80\x14\xd3\x59\x0f\xd3\xd7\x62\x1d\xa6\x9d\xaf\xef\xbe\x47\x8e\x64\x93\xec\x04\xcc\x78\x30\x0f\x06\x03\x55\x1d\x13\x01\x01\xff\x04\x05\x30\x03\x01\x01\xff\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x03\x82\x01\x01\x00\x43\xa4\x63\xec\xde\xef\x0c\xdc\x53\xa9\xbc\x28\x8a\x5a\xc0\x93\x30\x86\x5f\x46\xa7\xd3\x40\xc8\xee\xb8\xc2\x49\x05\x42\xf7\x45\xe3\x66\x6b\x35\xa0\xd1\x59\x05\x44\xdf\x54\x0a\x8e\x96\xc7\xa0\xbe\x86\x18\x64\x16\x59\xa5\x3f\x31\x3a\x7d\x22\x24\x45\x72\x60\x8b\xc5\x03\xf7\x9b\x6a\xc6\xd9\x9a\x32\xe4\x01\x87\xf3\x00\x98\x2a\xd8\xd9\x5c\x2c\x1c\x1b\x66\x41\x17\xb6\xb5\x5c\xdf\xc1\x5a\x5b\xd2\x9b\x89\x06\x1a\x5b\xd0\x19\xdb\x75\x1f\xab\xd9\x6c\xc9\xb5\x10\x4e\xf5\x2a\x74\x68\x72\x72\x60\x41\x54\x22\x0e\x1a\x88\x6b\xff\xa7\x2c\x2b\xb3\xe2\x0a\xc4\xab\xb5\x8c\x13\x7f\x32\x04\x36\xaa\x21\xda\x6b\xc0\x9d\x45\x89\x32\x65\xde\x22\xa6\x2e\x80\x49\x88\x80\xe6\xc2\x24\x80\xa6\xab\x49\x9b\x55\x29\x38\x14\xee\xac\x83\xdf\x31\x0c\xc0\x78\x1d\x00\x3b\xae\xeb\x64\x17\x66\x46\x78\x61\xf0\x3c\xaf\x6b\x08\x1d\xed\x73\xa7\xbd\x91\x73\x8c\xbf\x08\xc5\x0f\x01\x87\x00\x3b\x06\xb1\xa4\x72\xc3\x6f\x30\xe6\x63\x48\x88\xc3\x9e\x6d\xea\xa8\x2e\x33\xf1\xa2\x0a\x0a\x7a\xae\xad\xfe\x61\xe3\x93\xe4\x61\x5d\x40\x66\xec\x3a\x5f\x69\xa5\x10\xac",
	SPKIStr: "\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xb2\xd0\x2b\x83\x9e\x6e\x2b\xbd\x38\x27\xf4\x71\x93\xef\xfc\xad\xa5\x36\x76\xcd\xc2\xab\xfb\x13\x74\x2a\xbe\xdf\x88\x7e\x09\xc1\x8a\x79\x24\xf4\xac\x19\x47\x8f\x0d\x40\xd3\x66\xae\x91\x17\x68\x89\xf4\x4c\xbe\x33\x7b\x45\xbe\x34\x11\x3e\xbd\x8b\x67\xfb\x5b\xa2\x1e\xfb\x65\x27\x73\xff\xf1\x7c\x74\x02\xc3\x79\xb5\x4f\x99\x2c\xdb\xa6\xb7\x01\xde\x80\x89\x1b\xd4\xc3\x44\x81\xc7\x3a\x62\x39\x57\xe3\x9c\xa0\xaf\x69\x62\x42\xbf\x8c\xe1\x34\x75\xe9\xf2\x4d\x0f\x99\xf1\x28\x94\x73\xd7\xc9\xb7\x92\xf5\x75\x26\xdf\xd4\x80\xfc\x05\xa3\x8c\xf9\x6f\xfc\x2b\x8e\x9c\x46\x44\xfb\x99\x36\x01\xc1\x10\x9a\x4b\x26\xf3\xbb\x3b\xdd\x9a\xe1\x44\xfc\xfe\x4e\x23\x8f\xe7\xe9\xd9\xe7\xc7\x3d\x22\xff\xde\x56\xec\x02\x5a\xec\xd0\x61\xf6\x48\x20\x1d\x47\xee\xd3\x2f\xcb\x3e\xab\x15\xa7\xec\x73\x29\x04\x66\xef\x09\x25\x54\x2a\x29\x0a\x7a\xf6\xe3\xd5\x23\x57\x1d\xaa\xcb\xb9\xb1\x3a\x81\xd7\x92\x7d\xf9\xf5\x9a\x7a\xcb\x07\xe0\x9e\x8c\x0f\x45\x0e\x6d\xc2\x89\xca\x0c\xa3\x95\xac\x58\xf1\xda\x82\xec\xf9\xff\xff\x77\x45\xf3\x0b\x46\x39\xb8\x9f\x71\x02\x03\x01\x00\x01",
	PrivStr: "\x30\x82\x04\xbd\x02\x01\x00\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x04\x82\x04\xa7\x30\x82\x04\xa3\x02\x01\x00\x02\x82\x01\x01\x00\xb2\xd0\x2b\x83\x9e\x6e\x2b\xbd\x38\x27\xf4\x71\x93\xef\xfc\xad\xa5\x36\x76\xcd\xc2\xab\xfb\x13\x74\x2a\xbe\xdf\x88\x7e\x09\xc1\x8a\x79\x24\xf4\xac\x19\x47\x8f\x0d\x40\xd3\x66\xae\x91\x17\x68\x89\xf4\x4c\xbe\x33\x7b\x45\xbe\x34\x11\x3e\xbd\x8b\x67\xfb\x5b\xa2\x1e\xfb\x65\x27\x73\xff\xf1\x7c\x74\x02\xc3\x79\xb5\x4f\x99\x2c\xdb\xa6\xb7\x01\xde\x80\x89\x1b\xd4\xc3\x44\x81\xc7\x3a\x62\x39\x57\xe3\x9c\xa0\xaf\x69\x62\x42\xbf\x8c\xe1\x34\x75\xe9\xf2\x4d\x0f\x99\xf1\x28\x94\x73\xd7\xc9\xb7\x92\xf5\x75\x26\xdf\xd4\x80\xfc\x05\xa3\x8c\xf9\x6f\xfc\x2b\x8e\x9c\x46\x44\xfb\x99\x36\x01\xc1\x10\x9a\x4b\x26\xf3\xbb\x3b\xdd\x9a\xe1\x44\xfc\xfe\x4e\x23\x8f\xe7\xe9\xd9\xe7\xc7\x3d\x22\xff\xde\x56\xec\x02\x5a\xec\xd0\x61\xf6\x48\x20\x1d\x47\xee\xd3\x2f\xcb\x3e\xab\x15\xa7\xec\x73\x29\x04\x66\xef\x09\x25\x54\x2a\x29\x0a\x7a\xf6\xe3\xd5\x23\x57\x1d\xaa\xcb\xb9\xb1\x3a\x81\xd7\x92\x7d\xf9\xf5\x9a\x7a\xcb\x07\xe0\x9e\x8c\x0f\x45\x0e\x6d\xc2\x89\xca\x0c\xa3\x95\xac\x58\xf1\xda\x82\xec\xf9\xff\xff\x77\x45\xf3\x0b\x46\x39\xb8\x9f\x71\x02\x03\x01\x00\x01\x02\x82\x01\x00\x03\x05\xe9\xf6\x6b\xb3\x49\x22\x05\xd5\x07\x18\xf4\x7b\x56\x36\x49\x58\xc6\x61\x6c\x2d\x24\x2d\x8c\x05\x3c\xfc\xe2\x7d\xdf\x04\x5a\xa6\xf9\xac\xf9\x4b\xe4\x1d\xd3\x07\x89\x8b\x6e\xe0\x1d\x19\x33\x5b\xe2\x00\x45\x36\x8c\x53\x4e\xe6\x0b\xbd\x80\xa1\xdd\x6a\x0b\x2f\xa2\xe8\x6e\xe6\x53\x29\x6e\x05\x38\x16\xbd\xf4\x06\xc8\x7c\x2d\xaa\x7f\xe5\x94\x31\x70\x1f\xfc\x54\xe0\xcf\xa0\xe2\xa7\xce\x78\x61\xec\xbf\xfa\xb7\x39\x66\x0f\x7e\xfe\x3f\xb8\xce\x9f\xbe\x15\xc9\x70\x7e\x53\x24\x32\x3d\xc2\xd0\xc5\x3d\x99\xce\xa6\xed\xd3\x88\x0c\xeb\xf4\xa2\x82\x33\xeb\xf6\x33\xa2\xa7\xb5\x87\x03\xfd\x63\x8a\xce\x6e\x8a\x58\x78\x2a\x5e\x21\x09\x45\xb0\x4b\x4a\x31\x70\x78\xa0\xdb\xc7\x2c\xb9\x97\x8d\x0f\x83\x70\xe6\xaa\x24\xbe\x71\xe8\x75\x55\x06\x94\xac\x75\x38\x87\x9e\xc9\x9a\x6c\x03\x1c\x31\xc5\x47\xbd\x55\xb9\xf0\xbb\xd7\x0b\xef\x0e\xe7\xc2\x1e\x11\x4a\x37\xd7\xe3\x79\xa0\x24\x13\xf2\x27\x42\x0f\x1f\xc5\xbd\x04\xdb\x49\x28\x5d\x3d\x78\xc5\xec\xb5\x5b\xc2\xb5\x8d\x6f\xa2\x2c\x0d\x13\xb6\x50\x86\x12\xba\x0e\x91\xb4\x65\xf4\x89\x01\x02\x81\x81\x00\xea\x76\x42\xe1\x53\x95\x8f\x4a\x4e\x21\xd6\xab\x59\x4c\x9b\x2c\x02\xba\xa0\x53\x8d\xe5\x7a\x55\xe8\xb2\x2f\x11\x05\x8d\x86\xbc\xc9\x35\x8c\xd4\x43\xfe\xfe\x00\x54\x1d\x09\xbc\xe7\x20\xd6\xfb\x36\xc9\x63\xaf\x30\x16\x70\x8d\x21\x6d\xb0\x08\xc4\xdb\xdf\xc2\x2c\x88\x60\xaa\x6b\xbe\xa0\x14\xdb\xf8\xdd\x2d\x66\x6e\x75\x56\x7c\xb4\x7c\x70\x02\x77\xc4\xa9\xf6\x12\x6a\xb8\x08\x09\x20\x99\xe9\xf0\x17\x6d\xa1\xf8\x60\x82\x24\x18\x98\x5a\x50\xfb\xa7\x03\x9c\x80\x89\x6a\x3c\x5a\x58\x3d\xd2\x20\xe3\x31\x36\xac\x8e\x49\x02\x81\x81\x00\xc3\x3d\x3d\x92\x2a\x3e\x57\x42\x66\xa0\xf5\xc1\x89\xdf\x02\x07\xcc\x19\xf4\x63\xdb\x71\x5a\x33\xc3\x43\xd8\x14\xc6\xa9\x54\x38\xfa\xfe\x3e\xe1\x86\x1a\xaf\x3e\x7a\xb8\xa1\x10\x32\xfe\x9a\x58\x52\x4c\x2d\x30\xae\x11\x07\x0b\xf7\x8f\x0c\x3a\xad\x91\x4c\xdf\xfc\xa5\x0e\x99\xf8\x0f\x08\xa6\x3e\xfd\x65\xbb\x0e\x6a\x8e\xb2\x8d\xd7\x17\xea\x7a\x62\xb2\xed\xaa\xf4\x01\xe1\xc3\x6d\xcf\x5d\x4b\x8c\xa5\x26\xd3\x54\x92\xa7\x5e\x54\xb5\xbf\x3e\xe3\xec\x1b\x33\x3a\xb9\xcb\xe4\x68\x91\x37\x92\xf1\xa2\x50\x3d\x0e\x27\xe9\x02\x81\x80\x2d\xf8\xb6\x30\x5c\x25\x2d\x0d\x52\xb8\x8b\xd0\xd9\x17\x8e\x2d\x58\xf3\xa2\xcf\xff\x38\x89\x7e\x22\xbc\x1d\x42\x67\x26\x52\xce\xdd\x5c\xe4\x9a\x12\x23\x03\x46\xa9\x37\x70\x5b\x5b\xae\x32\xb8\xdb\x0b\x2d\xc2\x81\xd9\x44\x84\x47\x93\xac\x3a\x6b\xee\xf8\xb6\xa7\xe8\xad\x9b\x7c\xb8\xc9\xc6\x8d\x43\x04\x8b\x0c\x54\x88\x29\x47\x16\x54\x77\xd9\xe4\x05\xe9\x95\x58\x13\x18\xb6\x6a\xa3\xbb\xca\x04\xcb\x73\x31\x98\xf3\xc3\x50\xb4\x89\xda\xdb\x9a\x1c\x2b\x37\x1a\x74\xd7\x21\xb2\x4d\x2f\x01\xee\x74\xdd\x87\x6c\xda\x11\x02\x81\x81\x00\xa4\x9b\xc2\x88\xb4\xb3\x20\xf0\xec\x04\x73\x8f\x7c\xc5\x98\x39\xa8\xbc\x8d\x4f\x8f\xd9\xef\x1a\x4b\x5c\xad\x17\x3f\x33\xce\xbd\xc7\xe8\x8a\x6d\xac\x9a\x5c\xfc\x49\x8d\xd6\xc6\x08\xa8\x9e\xcb\x2e\x7f\xe9\x6d\xec\xa4\x90\x93\x67\x62\xa5\x05\xe8\x06\xe4\x90\xc8\xbb\x05\x27\x8d\x7c\x67\x67\x7b\x1e\x3c\x22\x4d\x12\x4c\x43\x80\xd1\x43\xe9\xbe\xcb\xee\x5d\xf1\xcf\x8e\xb2\xa1\x09\xb9\x56\xc8\x76\xc9\x5b\x85\xbb\xfd\x75\xbd\x53\xa0\x74\xa0\xfa\x9b\xbb\x87\x22\xd1\x39\x75\xd7\x2f\xf0\x72\x24\xe6\x1b\xce\x8e\x5b\xd9\x02\x81\x80\x05\xaf\xee\x9e\x4b\xe2\xde\x3b\x7b\xb0\xde\x0e\xcd\x6e\x33\x72\x48\x79\xb2\x1b\x6f\x9a\x43\xb0\x8d\xbb\xd8\x15\x6c\x1d\x32\xe0\x33\xcb\x4e\x25\x92\xb2\x59\x7b\x58\xde\xfc\x20\x4d\x17\x78\xa3\x97\xb4\xdb\x1c\x42\x75\xa7\x99\x91\xca\x3a\xc5\xb8\xed\xfc\xc7\x49\x08\x22\x6c\x11\xb1\xfb\xe1\x11\xab\xdd\x58\x8c\x3e\xa0\x7b\x86\x5c\x70\x2a\x9b\xda\x76\x28\x25\x01\x11\x86\x7b\x65\x58\x84\x97\xba\x0f\x3c\x1a\x1d\x1d\x0d\xa6\x76\x14\x06\x69\x41\x1f\xc3\xfb\x2f\xae\x3f\x6c\x23\xee\x94\x23\x58\x43\x99\xf5\x72\xb4\xee"}

var KeyR2 = &Key{Name: "R2", Type: "rsa",
	CertStr: "\x30\x82\x03\x24\x30\x82\x02\x0c\xa0\x03\x02\x01\x02\x02\x01\x66\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x52\x32\x30\x20\x17\x0d\x32\x36\x31\x31\x31\x39\x32\x32\x31\x31\x33\x33\x5a\x18\x0f\x32\x30\x35\x31\x30\x37\x31\x31\x32\x32\x31\x31\x33\x33\x5a\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x52\x32\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xb6\xc4\x57\xb3\x96\x59\x9a\x9d\x91\x58\x05\xeb\xce\x48\x75\x26\x8f\xb1\xc4\xf4\x6b\x9f\x1c\xe4\x1b\xed\x2e\x91\xcd\x08\x60\x0f\x8b\x88\x0a\x46\x76\xb8\xbc\x8b\xf8\xfd\xc4\x92\xc6\x6d\x08\xfc\x24\xc3\xa2\x55\x4b\xf8\x77\x25\x54\xa2\xea\x49\xb2\x5d\x87\xad\x86\x76\xad\x99\xc3\x14\x13\xb6\x24\xa5\x5c\xaa\x7c\x40\x63\x92\x1c\xea\x39\x27\x5e\x52\xa5\xba\xc0\x91\x01\x92\x9e\xfa\x53\x5f\xa6\x4f\xce\xd7\x2f\xcb\x9f\x50\xb8\xef\xd5\xa4\xb9\xec\x86\x26\xdf\x4d\x35\x17\x69\x17\xe9\x96\x11\x18\xdc\x05\xa8\x74\x20\x4d\x44\xfa\x55\x67\xcb\xb3\x6f\x93\x03\x47\x6e\x68\x5b\x23\x20\x6b\x6f\xb4\x12\xa5\x45\x71\xce\x84\x51\x8a\xe6\xf5\x7e\xa0\xe0\xf3\x0e\xb5\xf2\x4b\x0d\x17\xec\x1e\x51\x76\xdf\xd3\x26\x9c\xd9\x10\x68\x12\xa6\x3a\xb9\xe0\xd9\xf6\x73\xfc\x9c\x35\x0a\x99\xc5\x79\x11\x10\x10\x75\x17\x8b\xa8\xdd\x82\x78\x22\xd3\xdc\xef\xe1\xae\xd6\x4d\x24\x0a\x0a\x3d\x14\x89\x20\x1a\x67\xcb\xc8\x78\xaf\xfb\x72\x8f\x91\x6d\x0f\x97\xa5\x94\x8d\xf1\x0d\x36\x18\x2b\x85\x5a\x9d\xfe\xcc\xb1\x86\x29\x0c\x36\x14\x3f\x6b\xa7\xfa\xb8\x28\x17\x02\x03\x01\x00\x01\xa3\x53\x30\x51\x30\x1d\x06\x03\x55\x1d\x0e\x04\x16\x04\x14\x8c\x01\xf2\x63\x52\xeb\xb6\xc5\xce\x70\xef\x6a\x06\xd2\x47\x7d\xf3\x2e\xbf\x40\x30\x1f\x06\x03\x55\x1d\x23\x04\x18\x30\x16\x80\x14\x8c\x01\xf2\x63\x52\xeb\xb6\xc5\xce\x70\xef\x6a\x06\xd2\x47\x7d\xf3\x2e\xbf\x40\x30\x0f\x06\x03\x55\x1d\x13\x01\x01\xff\x04\x05\x30\x03\x01\x01\xff\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x03\x82\x01\x01\x00\x58\x5b\xbb\x98\x04\x19\xe6\x40\x4a\xae\x3b\xf2\x0b\xa2\xb5\x26\x02\x98\xb0\xa2\x49\xdb\x6f\x10\xfa\x45\x5b\xcf\x18\xbb\x0d\x20\x9d\x5e\x6f\x48\x2a\x83\x28\xa6\x69\x34\xac\xe3\xbc\x99\xc2\x29\x55\x9a\xa4\x6f\x5f\xd5\xc5\xb3\x50\x17\x71\xed\x27\xe1\x4b\x46\x86\xa9\x87\xd8\x5a\xfb\x61\x78\xd1\x0f\xf7\xd5\x2f\x2e\x74\xdb\xfd\x18\x90\xe2\xff\xa2\xde\x48\x99\xe8\x2f\xb6\xa1\x7d\xd2\xd3\xa9\xbd\x66\x82\x05\xfc\x2d\x86\xa7\xe3\x8b\x8e\x72\x98\x05\x66\xec\x38\xfe\x30\xdf\x27\xad\xb6\x0a\xf3\x91\x74\x3c\x85\x68\x28\xc3\x3f\x9d\x3f\xb8\x8b\xa8\xc6\x41\x8e\x21\x26\x1b\x73\xdc\x74\xde\x91\x12\xc6\x2c\x05\xf5\xc7\x2e\xbd\xa9\x63\x78\x9d\x27\xcb\x1f\x47\x14\xfa\x20\x94\xf1\x3c\x35\x17\x24\x8e\xff\x87\x0c\xbd\xab\xc9\xd7\xed\x5e\x3f\x9d\xa0\x12\xd7\x9a\x52\x1a\x2d\xcc\xe4\x30\x96\x36\x08\xa2\x26\xff\x2d\x99\xa3\x24\xe7\x2e\xfc\x5d\x87\x35\xbf\xd4\x77\x04\x87\x89\x05\x32\x4d\x3c\xdb\x9a\x2f\xc4\x44\xfc\xfb\x75\x01\xf0\x7c\xf4\x90\xb6\xbc\xcd\x8e\x0a\xdc\x48\x63\x10\x8a\x20\x5d\xe2\x84\x7e\xb3\xb3\x91\x1c\x9a\xa2\x04\x44\xf0",
	SPKIStr: "\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xb6\xc4\x57\xb3\x96\x59\x9a\x9d\x91\x58\x05\xeb\xce\x48\x75\x26\x8f\xb1\xc4\xf4\x6b\x9f\x1c\xe4\x1b\xed\x2e\x91\xcd\x08\x60\x0f\x8b\x88\x0a\x46\x76\xb8\xbc\x8b\xf8\xfd\xc4\x92\xc6\x6d\x08\xfc\x24\xc3\xa2\x55\x4b\xf8\x77\x25\x54\xa2\xea\x49\xb2\x5d\x87\xad\x86\x76\xad\x99\xc3\x14\x13\xb6\x24\xa5\x5c\xaa\x7c\x40\x63\x92\x1c\xea\x39\x27\x5e\x52\xa5\xba\xc0\x91\x01\x92\x9e\xfa\x53\x5f\xa6\x4f\xce\xd7\x2f\xcb\x9f\x50\xb8\xef\xd5\xa4\xb9\xec\x86\x26\xdf\x4d\x35\x17\x69\x17\xe9\x96\x11\x18\xdc\x05\xa8\x74\x20\x4d\x44\xfa\x55\x67\xcb\xb3\x6f\x93\x03\x47\x6e\x68\x5b\x23\x20\x6b\x6f\xb4\x12\xa5\x45\x71\xce\x84\x51\x8a\xe6\xf5\x7e\xa0\xe0\xf3\x0e\xb5\xf2\x4b\x0d\x17\xec\x1e\x51\x76\xdf\xd3\x26\x9c\xd9\x10\x68\x12\xa6\x3a\xb9\xe0\xd9\xf6\x73\xfc\x9c\x35\x0a\x99\xc5\x79\x11\x10\x10\x75\x17\x8b\xa8\xdd\x82\x78\x22\xd3\xdc\xef\xe1\xae\xd6\x4d\x24\x0a\x0a\x3d\x14\x89\x20\x1a\x67\xcb\xc8\x78\xaf\xfb\x72\x8f\x91\x6d\x0f\x97\xa5\x94\x8d\xf1\x0d\x36\x18\x2b\x85\x5a\x9d\xfe\xcc\xb1\x86\x29\x0c\x36\x14\x3f\x6b\xa7\xfa\xb8\x28\x17\x02\x03\x01\x00\x01",
	PrivStr: "\x30\x82\x04\xbe\x02\x01\x00\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x04\x82\x04\xa8\x30\x82\x04\xa4\x02\x01\x00\x02\x82\x01\x01\x00\xb6\xc4\x57\xb3\x96\x59\x9a\x9d\x91\x58\x05\xeb\xce\x48\x75\x26\x8f\xb1\xc4\xf4\x6b\x9f\x1c\xe4\x1b\xed\x2e\x91\xcd\x08\x60\x0f\x8b\x88\x0a\x46\x76\xb8\xbc\x8b\xf8\xfd\xc4\x92\xc6\x6d\x08\xfc\x24\xc3\xa2\x55\x4b\xf8\x77\x25\x54\xa2\xea\x49\xb2\x5d\x87\xad\x86\x76\xad\x99\xc3\x14\x13\xb6\x24\xa5\x5c\xaa\x7c\x40\x63\x92\x1c\xea\x39\x27\x5e\x52\xa5\xba\xc0\x91\x01\x92\x9e\xfa\x53\x5f\xa6\x4f\xce\xd7\x2f\xcb\x9f\x50\xb8\xef\xd5\xa4\xb9\xec\x86\x26\xdf\x4d\x35\x17\x69\x17\xe9\x96\x11\x18\xdc\x05\xa8\x74\x20\x4d\x44\xfa\x55\x67\xcb\xb3\x6f\x93\x03\x47\x6e\x68\x5b\x23\x20\x6b\x6f\xb4\x12\xa5\x45\x71\xce\x84\x51\x8a\xe6\xf5\x7e\xa0\xe0\xf3\x0e\xb5\xf2\x4b\x0d\x17\xec\x1e\x51\x76\xdf\xd3\x26\x9c\xd9\x10\x68\x12\xa6\x3a\xb9\xe0\xd9\xf6\x73\xfc\x9c\x35\x0a\x99\xc5\x79\x11\x10\x10\x75\x17\x8b\xa8\xdd\x82\x78\x22\xd3\xdc\xef\xe1\xae\xd6\x4d\x24\x0a\x0a\x3d\x14\x89\x20\x1a\x67\xcb\xc8\x78\xaf\xfb\x72\x8f\x91\x6d\x0f\x97\xa5\x94\x8d\xf1\x0d\x36\x18\x2b\x85\x5a\x9d\xfe\xcc\xb1\x86\x29\x0c\x36\x14\x3f\x6b\xa7\xfa\xb8\x28\x17\x02\x03\x01\x00\x01\x02\x82\x01\x00\x25\xcf\xb8\x0f\x34\xe7\x43\xc8\x1e\x76\x35\xff\x63\x75\x75\x1b\x2d\xb6\x4a\xf7\x80\x3e\x72\x55\x34\xfb\xdc\x5b\x18\xae\x87\x65\x1f\xea\x5c\xa9\xd8\x4c\xfe\xe0\xfc\x79\xcf\xcd\xc7\xd4\x6d\xfb\xf0\x45\x33\x13\xef\x7c\x2f\x76\x1f\x2c\xf7\x48\x98\xe8\xa5\xb5\xbe\x30\x56\x59\x0d\xd5\x5d\x00\x9d\x53\x42\xb9\x18\xac\x9f\x8c\xee\x83\x7c\xa0\x8a\xf0\x91\x4d\xf2\x21\xed\xcf\xde\x29\x0e\xcf\xa6\x92\x33\x4a\x2c\x9e\xb5\x4e\x97\x7c\x32\xd8\x7a\x08\x97\x76\x7a\x53\x38\x4d\x28\x16\x64\xe2\x81\x96\x01\x8b\x00\x1f\x4a\x41\x28\xa4\xfc\x00\xb2\xb2\x52\x32\xf9\x22\x46\x43\x61\x9a\xe8\xb6\x8f\x50\x7a\xa5\x23\x59\xb6\x21\x28\x72\x6a\x0d\x92\x6e\x1f\x15\xab\xb0\x49\x2e\x2c\x19\xdd\x1a\xbb\xc8\xc4\x02\x5e\x1a\x83\x79\x28\xcb\x9f\xcc\x01\x45\xaf\x94\x6d\x72\xd7\x21\x49\xb7\x8d\xba\xcf\xc5\x4c\x8e\x93\x3e\x6e\xa8\xa4\x5f\x33\x40\x7f\x6a\x98\x12\xb2\xbc\x55\x4d\xec\x0e\x54\xd9\xa2\xb0\xea\x39\x70\xff\x62\x9c\xe4\x98\xc6\xad\xd6\xc6\xc3\xdc\x24\x54\xc3\x8f\xea\xde\x51\x78\x2e\x04\xeb\x30\xdc\xca\xd1\xaf\x78\x03\x72\xf5\xe9\x65\xc6\x11\x02\x81\x81\x00\xdb\xf7\xb8\x28\x4f\x25\x0a\xd1\x7e\xe7\x45\x7f\xc2\xb7\xda\xba\xee\x29\x15\x9c\x9f\x35\x8e\xd7\x4c\xa2\x14\xf5\x43\xa1\x37\xd5\x4a\x15\x60\x75\xba\x55\xb2\x7c\x41\x94\xe6\x30\xc3\xf9\xca\x42\xd6\x72\xfc\x75\x56\x32\x46\xc4\xd9\x22\x39\x9f\xff\x31\xfb\x23\xca\x4a\x90\xd1\x88\x7b\xd1\x0c\x52\x6e\x42\xdd\xf6\xef\x08\x6d\xf8\x80\x44\x69\x0d\x29\x24\x6c\x3c\x6f\x2a\xe3\xaa\x8a\xe9\x53\x13\x96\xa3\xbd\xc1\x4e\x33\x73\xad\xdb\x59\x59\x31\x03\x67\x32\x90\x9c\x72\x24\xd3\x01\xad\x16\xc3\xd5\xb8\x6c\x5c\xb0\x16\x07\x02\x81\x81\x00\xd4\xb4\x9f\x76\x8c\xb5\x6c\x41\x70\xa3\xe1\x04\x03\x67\x4f\x84\x88\x04\xb7\x46\x72\x8a\xa7\x2f\x4c\x31\xa0\x42\x3f\xab\x08\xf8\x68\x15\x05\x87\x3e\x92\xf6\x34\xe7\x1e\x4b\x7b\x47\xc3\x0a\x81\x18\x5a\xab\x72\xf3\xf7\xd1\x56\xc3\x30\x04\xdf\x66\xc1\x61\xe5\x04\xc2\xca\xda\xb4\x79\x88\x36\x7c\x02\x84\xaf\x73\x20\xf2\x60\xf0\x8c\x75\xb3\x68\xe7\x3f\x7f\xce\x8f\x0f\x35\x25\xd5\x76\xe6\x03\x93\x33\x7a\x0d\x68\xc9\x33\x58\xd0\x06\x13\xd1\xf0\x75\x91\x16\x9b\x14\x01\x1c\xa1\x3f\xf1\xb1\x89\xff\x2f\x56\x7a\x59\x71\x02\x81\x80\x4e\xfe\xf7\xb4\x02\x38\x5b\x5a\x41\x28\xed\x5c\xa4\xa1\x42\x7c\x3f\x6b\xa1\xc7\x4d\xa5\xfe\x56\x73\xbf\x01\xa7\xd3\x51\xe2\xab\x46\x9f\xc6\xb4\x80\xe6\xa5\xe2\xd9\xea\x8f\x80\x93\xe0\xf1\x32\x6f\xb1\x7b\xd8\xe7\xcb\xc6\x7e\x8b\x3c\x2f\x55\xb6\x60\x4c\xc0\xdd\xb5\x49\xac\xf6\x47\x01\x1c\x5b\xbe\x1d\x65\x79\x78\xfe\x9d\xff\xd0\x90\xc0\xe9\x69\x0d\x1b\x91\xd8\x9a\x9e\x88\x70\xba\xba\x8b\x1e\x5e\x4f\x97\x4c\x6e\x4d\xec\xf2\x09\x74\x6e\x95\xba\x49\xfe\x85\x30\xb8\xe8\xce\x81\x4a\xdb\xa9\xb5\x41\xb5\x47\xc7\xa1\x02\x81\x81\x00\x95\x92\x92\x13\xe6\x2c\x69\x7c\xb6\xfd\xb6\x6c\x81\x0c\x33\xe1\x89\x58\x6f\x9c\xad\x4d\x0c\xf5\x78\x89\xe9\x1c\xcc\xf2\xb3\xb3\x22\x55\xad\xf6\x85\xad\x08\x4e\xf9\x3a\xd7\x6f\x50\x6e\x39\xc3\xbf\xe1\x7a\x70\xb2\x58\x50\xaf\xc7\x3f\xcc\x1d\x60\x7f\x9a\x1c\x56\xb5\xb7\xba\x05\x70\xf4\xb5\x03\x8d\x2d\xca\xc6\x95\xa3\x7b\x41\x8c\x33\xf4\x3e\x4f\x66\xda\xb3\xe0\xeb\x9b\xbf\x08\x15\xbc\xf7\x44\x9a\xcd\x38\x02\xb8\x81\x4f\xf1\xb0\x64\x5d\x9b\xce\xc0\x80\xf9\xfa\x1e\x32\x08\xbe\x13\x72\x7a\x0c\xa5\x38\x15\x7f\x31\x02\x81\x81\x00\xbb\xa9\xed\x9c\xfe\x1b\xb0\x0a\xa7\x62\xfc\xc6\x04\xa0\x12\x17\x76\x39\x9d\x27\xe9\xba\x3c\x7b\xab\x61\x18\xbe\x13\x69\xee\x61\xa8\x70\x76\xf9\x97\x7f\x58\x23\xa1\x62\x7d\xd5\xf8\x8c\x63\x3b\xfa\xde\x71\xec\xaf\x39\x26\x42\x76\xa7\xa1\xe0\xaa\x25\xb5\xdc\x5d\x52\x7d\x30\x6b\x22\x69\xc0\xbc\xd9\x64\x34\x98\x05\xe3\xb7\x6b\x5f\xf4\x83\x79\xae\x2a\x91\x30\x03\x63\x1d\xac\xfe\xa3\xd9\xb0\x49\xc6\xdc\x90\x67\x9e\x21\x53\x2c\x38\x7b\x31\x5f\xfc\x2e\xc9\xd8\x34\x61\x05\x79\x45\x05\xca\x8b\x92\xce\xc3\x76\xd7\x14"}

var KeyR3 = &Key{Name: "R3", Type: "rsa",
	CertStr: "\x30\x82\x03\x24\x30\x82\x02\x0c\xa0\x03\x02\x01\x02\x02\x01\x67\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x52\x33\x30\x20\x17\x0d\x32\x36\x31\x31\x31\x39\x32\x32\x31\x31\x33\x34\x5a\x18\x0f\x32\x30\x35\x31\x30\x37\x31\x31\x32\x32\x31\x31\x33\x34\x5a\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x52\x33\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xda\x0e\x81\x3b\xb4\xb5\xe9\xe7\xe7\x90\xae\x37\xc3\x7a\xbb\x8b\x6d\xc9\xcc\x9c\xde\x53\xe5\xf7\x61\xca\x5c\x19\xe5\xfe\x6c\x15\x8c\xf3\x25\x7b\x64\x51\x1d\x83\x4a\x3f\x67\x92\x86\xb3\x6c\x57\x7b\x43\xaa\x1f\xf6\xb4\x2d\x7f\x78\x90\x5b\xab\x53\x6b\xa4\x92\xdb\x29\xea\x36\x55\xbb\x05\x03\x50\x0b\x2a\xce\x6f\x80\x4e\x34\xb5\xfb\x60\xb9\x0f\x55\x52\x02\x4d\xff\xed\x6d\x70\x16\xea\xdc\x56\x15\x46\x15\x5b\x4a\x6b\xfd\x69\x9b\x7a\x81\xbd\xb8\x2f\xa7\x29\x9c\x9f\xf4\xa6\x0a\x12\x45\xd7\x63\x1c\x3f\xef\xc7\x44\xd9\x06\x55\x2b\x79\x99\xb5\xca\x4c\x8d\x75\x96\x62\x15\x5d\x3a\x85\xdc\x4a\xeb\xd9\x5c\x19\xf5\x94\x57\x09\xa5\x89\xf7\x38\xe3\xba\xea\x3f\xe8\x42\x86\x81\x16\xea\x2a\x15\x1a\x52\x7c\x77\x24\x04\x42\x62\x7a\xc2\xb3\x09\x98\x40\x86\x58\xa7\x4b\x62\x74\x09\x8c\x7e\x6d\xc0\xf3\x69\xc0\xe3\xc9\xff\x98\x79\xde\x2f\x07\xdf\xcd\x98\x25\xa7\xd0\x04\xb0\xdf\x9e\x81\xf8\xbc\x38\xef\xa4\x52\x9a\x55\x37\x8b\x94\x4f\x25\x42\x38\xf9\xd7\xf7\x94\x37\x04\x5a\x93\x52\x44\x43\xb6\x14\x16\xfa\xdc\x5c\x4a\x4b\xdc\xa9\x54\x75\xf7\x02\x03\x01\x00\x01\xa3\x53\x30\x51\x30\x1d\x06\x03\x55\x1d\x0e\x04\x16\x04\x14\x75\x59\xb0\x8b\x75\xdb\x81\x9d\xaf\x29\xe1\x85\xfe\x33\xe6\x9b\x07\x3f\x33\x60\x30\x1f\x06\x03\x55\x1d\x23\x04\x18\x30\x16\x80\x14\x75\x59\xb0\x8b\x75\xdb\x81\x9d\xaf\x29\xe1\x85\xfe\x33\xe6\x9b\x07\x3f\x33\x60\x30\x0f\x06\x03\x55\x1d\x13\x01\x01\xff\x04\x05\x30\x03\x01\x01\xff\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x0b\x05\x00\x03\x82\x01\x01\x00\x64\x9a\x60\xbf\xf8\x3f\x38\x5f\x91\x14\x6c\x69\x03\x76\x03\x8b\x94\xda\x65\x6e\xc8\x1e\xcb\x0b\x9d\x49\x6e\xe9\xe1\x30\xc1\x83\x60\x47\x44\x34\x5e\x6f\x09\xa0\x8c\xe6\x5e\x67\xb5\x14\xb1\xbc\xbd\xbd\x5a\xb6\xc3\x5c\x30\x6e\xa8\xa9\x3f\x96\x93\x96\xc1\x8d\xd2\x07\x3c\xea\x05\x2b\xc2\x7d\x14\xc2\xdc\x7c\xcc\x75\x70\xc0\x8d\x7b\xd5\x3b\xed\x97\xf3\x3c\x82\xd3\xdf\x06\x83\xe9\x30\x56\xc9\xf6\x8d\xdc\x78\xc0\x49\x37\xeb\x09\x76\x6d\xb7\x6d\xbb\x8e\x9a\x3e\x6f\x11\x50\x9a\xb3\x92\xe9\x25\xee\x62\x6c\xf3\xc5\x23\xd4\x7f\x97\xcf\x94\x4e\xef\x8d\x17\x1a\x68\x8d\xa4\x5d\xd8\x61\x2e\x3d\xf0\x59\x91\x98\xe0\xba\x52\x54\xd9\xb4\x50\x34\x6f\x89\x89\x4b\xe7\xf4\x78\x7a\x5f\xca\xb9\x7c\xa3\xe6\xa4\xc4\xbc\xe0\xe1\xdc\x32\x2e\x50\x2c\x49\x49\xf0\xa2\xb1\xe8\x1f\x9c\x6e\xae\xa7\x6e\xed\xd7\x79\x26\xb9\xdb\x87\x87\x59\x6b\x4d\x11\x57\x02\x0e\x44\x3e\x79\xe3\x29\x77\x8d\xf9\xcc\xbc\xd1\x9f\x6d\x22\x6d\xee\x97\x04\x8e\xfa\x5a\xa1\x2d\xd6\x32\x99\x1d\x5d\x6f\x94\xac\xa4\xce\x21\x1a\x6a\xb4\x75\x45\x8a\x59\xe9\x52\xe7\xca\xae\x1f",
	SPKIStr: "\x30\x82\x01\x22\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x03\x82\x01\x0f\x00\x30\x82\x01\x0a\x02\x82\x01\x01\x00\xda\x0e\x81\x3b\xb4\xb5\xe9\xe7\xe7\x90\xae\x37\xc3\x7a\xbb\x8b\x6d\xc9\xcc\x9c\xde\x53\xe5\xf7\x61\xca\x5c\x19\xe5\xfe\x6c\x15\x8c\xf3\x25\x7b\x64\x51\x1d\x83\x4a\x3f\x67\x92\x86\xb3\x6c\x57\x7b\x43\xaa\x1f\xf6\xb4\x2d\x7f\x78\x90\x5b\xab\x53\x6b\xa4\x92\xdb\x29\xea\x36\x55\xbb\x05\x03\x50\x0b\x2a\xce\x6f\x80\x4e\x34\xb5\xfb\x60\xb9\x0f\x55\x52\x02\x4d\xff\xed\x6d\x70\x16\xea\xdc\x56\x15\x46\x15\x5b\x4a\x6b\xfd\x69\x9b\x7a\x81\xbd\xb8\x2f\xa7\x29\x9c\x9f\xf4\xa6\x0a\x12\x45\xd7\x63\x1c\x3f\xef\xc7\x44\xd9\x06\x55\x2b\x79\x99\xb5\xca\x4c\x8d\x75\x96\x62\x15\x5d\x3a\x85\xdc\x4a\xeb\xd9\x5c\x19\xf5\x94\x57\x09\xa5\x89\xf7\x38\xe3\xba\xea\x3f\xe8\x42\x86\x81\x16\xea\x2a\x15\x1a\x52\x7c\x77\x24\x04\x42\x62\x7a\xc2\xb3\x09\x98\x40\x86\x58\xa7\x4b\x62\x74\x09\x8c\x7e\x6d\xc0\xf3\x69\xc0\xe3\xc9\xff\x98\x79\xde\x2f\x07\xdf\xcd\x98\x25\xa7\xd0\x04\xb0\xdf\x9e\x81\xf8\xbc\x38\xef\xa4\x52\x9a\x55\x37\x8b\x94\x4f\x25\x42\x38\xf9\xd7\xf7\x94\x37\x04\x5a\x93\x52\x44\x43\xb6\x14\x16\xfa\xdc\x5c\x4a\x4b\xdc\xa9\x54\x75\xf7\x02\x03\x01\x00\x01",
	PrivStr: "\x30\x82\x04\xbe\x02\x01\x00\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00\x04\x82\x04\xa8\x30\x82\x04\xa4\x02\x01\x00\x02\x82\x01\x01\x00\xda\x0e\x81\x3b\xb4\xb5\xe9\xe7\xe7\x90\xae\x37\xc3\x7a\xbb\x8b\x6d\xc9\xcc\x9c\xde\x53\xe5\xf7\x61\xca\x5c\x19\xe5\xfe\x6c\x15\x8c\xf3\x25\x7b\x64\x51\x1d\x83\x4a\x3f\x67\x92\x86\xb3\x6c\x57\x7b\x43\xaa\x1f\xf6\xb4\x2d\x7f\x78\x90\x5b\xab\x53\x6b\xa4\x92\xdb\x29\xea\x36\x55\xbb\x05\x03\x50\x0b\x2a\xce\x6f\x80\x4e\x34\xb5\xfb\x60\xb9\x0f\x55\x52\x02\x4d\xff\xed\x6d\x70\x16\xea\xdc\x56\x15\x46\x15\x5b\x4a\x6b\xfd\x69\x9b\x7a\x81\xbd\xb8\x2f\xa7\x29\x9c\x9f\xf4\xa6\x0a\x12\x45\xd7\x63\x1c\x3f\xef\xc7\x44\xd9\x06\x55\x2b\x79\x99\xb5\xca\x4c\x8d\x75\x96\x62\x15\x5d\x3a\x85\xdc\x4a\xeb\xd9\x5c\x19\xf5\x94\x57\x09\xa5\x89\xf7\x38\xe3\xba\xea\x3f\xe8\x42\x86\x81\x16\xea\x2a\x15\x1a\x52\x7c\x77\x24\x04\x42\x62\x7a\xc2\xb3\x09\x98\x40\x86\x58\xa7\x4b\x62\x74\x09\x8c\x7e\x6d\xc0\xf3\x69\xc0\xe3\xc9\xff\x98\x79\xde\x2f\x07\xdf\xcd\x98\x25\xa7\xd0\x04\xb0\xdf\x9e\x81\xf8\xbc\x38\xef\xa4\x52\x9a\x55\x37\x8b\x94\x4f\x25\x42\x38\xf9\xd7\xf7\x94\x37\x04\x5a\x93\x52\x44\x43\xb6\x14\x16\xfa\xdc\x5c\x4a\x4b\xdc\xa9\x54\x75\xf7\x02\x03\x01\x00\x01\x02\x82\x01\x00\x59\x78\x1e\x1a\x6b\x59\x40\xb2\x00\x57\x62\xc4\x4a\x96\xaf\x20\xd4\x59\x3a\x75\x1a\xdb\xfd\xbd\x75\x08\x5c\xa5\xdb\xb2\x7a\x92\x95\x14\xa6\xca\x6c\x2c\xc4\x19\x3c\x7b\xab\x79\x79\x7f\x60\xf2\xbc\x06\xd5\x64\xec\x0a\x9d\xa8\x71\xc5\x79\x77\x60\x71\x08\x43\xa1\x5d\x1f\x56\x4f\xf2\xbe\x69\xcf\x8b\xe5\x72\x72\x59\x88\xbd\x23\xf6\x12\x87\x9b\xfc\xfb\xfb\x2a\x19\xda\x47\x4e\xf8\x78\x41\x13\xa9\x02\xea\x7c\x5c\x9a\xd6\x8d\x60\x57\xf1\xa7\xf0\x4c\xcd\x1f\xcb\xbd\xed\xd9\xba\xc4\x28\x97\xe9\x78\x8b\xdb\x4c\x3d\xb8\xb4\x77\x49\x79\x83\x6d\x89\x7a\xce\xe1\x3c\xe1\x2e\x3c\xc8\x02\xef\x76\x5e\x05\x26\x10\xcd\x8c\x0e\xcb\x00\x3c\x8f\x6c\x02\x60\x30\xa7\x1b\x86\x02\x3b\x51\x0c\xf2\x4e\x7c\xdc\xa9\xbe\x8a\x32\xb2\xe5\x71\xae\x48\x92\x25\x02\x7e\x3e\x23\x88\x06\x9e\x7c\xee\x37\x9f\x47\xae\xa7\x58\xa4\xd9\x5f\xcc\x1b\xb2\x81\xde\x4c\x4f\x4d\xce\x40\x5d\x87\x95\x1c\x3c\x34\x39\xf9\x35\x6c\xa7\xbb\x71\xab\xce\x8f\xe5\x9f\xbf\xcc\x2c\xd0\x6a\x21\x91\x21\x86\x76\xa3\xfe\xa3\xb5\xbf\x81\x65\x3c\x7b\xe1\x15\xd4\xc8\x2f\x69\x8a\x31\x02\x81\x81\x00\xed\x4e\x95\xb9\x24\x2a\xaf\xbe\xad\xd4\x12\x81\x53\x07\x40\xcb\x15\x34\xb1\xce\x30\x0c\x7b\xda\x6f\xbf\xd2\xb1\xe9\x14\x6a\xeb\x2e\x38\x34\xe3\x1a\x98\x5a\xee\xcb\x6f\x4b\xe9\x53\xd0\xb5\x1b\x23\xbb\xdf\x87\x7d\xc0\x87\x28\x45\xa4\x6d\xc6\x92\x9c\x46\x7f\xe6\x6b\x3f\x46\xfa\x66\xfa\x43\x8e\xbc\x81\xe3\x6f\x29\x4b\x2f\x0f\x9d\xf5\x46\xfe\x68\x38\x70\xb3\x8b\x8b\xb6\x9b\xc9\x8e\xee\xbc\xb9\x55\xff\x96\x70\xbb\x5c\xae\x8a\x81\x31\xe2\x26\x1b\x35\x79\x1d\x0d\xcf\xae\xb8\x32\x3a\xfc\x1d\x5f\x8c\x5d\xa1\xf3\xe3\x02\x81\x81\x00\xeb\x3b\xba\x48\x70\x25\x18\x4d\xdb\x19\x4d\x2b\xa7\x69\xb2\xfa\x48\x6a\xb2\x0a\xad\x1c\x1f\x10\xe5\x7d\x0d\x48\x96\x8b\x1f\x12\x4f\x38\x58\xfa\x08\x72\xa1\xf8\x54\x50\x65\xfb\x45\x24\x71\xad\xc2\x8c\xe5\x6a\x72\x00\x69\x7e\x6e\x6e\xf0\x36\x0f\x0d\x71\x04\x0e\xf1\x17\x50\x53\x7b\x89\x32\xec\x44\x11\x6e\x4a\xa5\xf3\xc9\xa3\xd6\xa3\x49\x2e\x9f\xe6\x04\xec\x03\x89\xf7\x9e\x59\x62\x09\x3e\x81\x55\xb3\x57\x90\xdd\x56\x39\x60\x5e\xaf\x87\xce\x31\xdc\xcc\x61\x39\x2e\xb3\x77\xab\xbc\x3a\x18\xdf\xeb\x09\x49\x59\xdd\x02\x81\x81\x00\xa7\x4d\x8c\x09\x27\x12\x61\x2c\xd1\x68\x7e\x53\x66\xb1\xea\x60\x42\xe7\x0f\xa4\x0a\x04\x03\x1d\x91\x43\x6f\xcb\xb6\x43\x8a\xcd\x9b\x9c\x4c\xcc\xff\xe7\x01\xd4\xf0\xdf\xda\x68\xf9\x8a\x5e\xe4\x6f\x60\xf8\xca\x91\x41\xb7\x08\x11\x71\x47\x63\x83\xe1\x61\x62\xb2\x94\x51\xdc\x3c\x95\x75\x43\x43\xd2\x6a\xd0\x69\x82\x77\x5b\x0a\x6b\x96\x8d\x22\xb7\x5f\x73\x35\x61\xe0\x72\x31\x8a\xfc\x96\x1b\xbf\x9e\x7d\xbf\x16\x63\x41\x88\x5c\x65\x91\x41\x9b\x13\xfb\xb3\x13\x64\xb5\x52\xbc\xd1\xcc\xfc\x09\xc9\x5f\x30\x74\x09\x79\x02\x81\x81\x00\xd7\x39\x0c\x95\x5e\x55\xf2\x48\xb9\xa0\x0a\xa5\x58\x45\x33\x46\x1f\x9f\xcf\x4a\x49\x5c\xa3\x67\xd8\x30\x74\x48\xe7\xc4\x5e\x27\x68\x68\x0b\xb0\xa8\xae\x09\x57\xa5\xfc\xf1\x71\xd6\xaf\x23\x7b\x71\xb7\x6b\xe7\xda\x6a\x5a\x1b\x1d\x7b\x4f\x38\x86\xc9\x2b\x90\x25\x03\x9c\xeb\x17\x96\xbd\xce\xe3\xb0\xdb\xa9\xe7\x8e\xb2\xe0\xd8\x90\x77\x51\x6b\xe1\x4c\x99\x50\x3f\x64\xaa\x34\x2d\x5f\xaf\x49\x8b\x18\x18\x40\x94\x00\x8e\xf5\x6c\x20\xf5\xc4\xf1\x79\x59\xa5\x7d\x86\xce\x1d\xd1\xee\x45\x07\x7a\xde\xd4\xb2\xe8\x73\xd9\x02\x81\x80\x30\x6b\xa9\xfb\xaf\x27\x97\x70\x0c\x86\x6e\xff\x36\x9e\xad\xd7\x7f\x27\xfd\x0c\xfd\xd7\xcb\x5d\xf9\xe3\xec\x0f\x08\x67\xec\x3f\x3c\x8e\x18\x64\xfc\x4f\x18\x78\x7d\x8a\xba\x4c\xa8\x5c\xca\x8d\xf1\x64\x4b\xb2\x57\x53\xcb\xb3\x7c\xff\xd4\x01\xfe\xb0\x25\xe6\xd4\x71\x53\x76\xef\x77\xc1\xc5\x3b\xf4\x00\xbd\xb3\x05\x37\xbf\x5a\x04\x2d\x80\x89\x33\xd3\x14\x9b\xd5\x04\x1e\x7a\xcc\x4c\x99\x43\x4e\x50\xa2\x20\x78\xc8\x0e\x5b\x80\x8c\xcd\x8b\x8c\xc4\xf6\x44\x9b\xdd\xee\x50\x1e\x54\x60\x8a\x4e\xc9\x0c\xe8\xb9\x3e\xe8"}

var KeyE0 = &Key{Name: "E0", Type: "ec",
	CertStr: "\x30\x82\x01\x98\x30\x82\x01\x3f\xa0\x03\x02\x01\x02\x02\x02\x00\xc8\x30\x0a\x06\x08\x2a\x86\x48\xce\x3d\x04\x03\x02\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x45\x30\x30\x20\x17\x0d\x32\x36\x31\x31\x31\x39\x32\x32\x31\x31\x33\x34\x5a\x18\x0f\x32\x30\x35\x31\x30\x37\x31\x31\x32\x32\x31\x31\x33\x34\x5a\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x45\x30\x30\x59\x30\x13\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07\x03\x42\x00\x04\x2d\xde\xbf\x56\x7b\xde\x7d\xdc\x82\x6a\x67\xb7\x52\xe6\x1c\xa9\xa3\x88\x36\x87\x32\x3b\xb8\x3b\xd3\xe1\x9e\x1b\x1e\xa0\x6a\x96\xb8\x2e\x64\x33\x6a\x75\x8a\xef\x99\x81\xb3\xb2\xc4\x2d\xfb\x34\x94\x68\x32\x1e\xed\x0a\x55\x17\xea\x69\xd7\x1c\xed\x34\x05\x60\xa3\x53\x30\x51\x30\x1d\x06\x03\x55\x1d\x0e\x04\x16\x04\x14\x67\x56\xe7\x74\xaf\x39\x55\x22\xd9\xc0\xec\x06\x6a\xbb\x0e\x88\xda\x7c\xfd\xe4\x30\x1f\x06\x03\x55\x1d\x23\x04\x18\x30\x16\x80\x14\x67\x56\xe7\x74\xaf\x39\x55\x22\xd9\xc0\xec\x06\x6a\xbb\x0e\x88\xda\x7c\xfd\xe4\x30\x0f\x06\x03\x55\x1d\x13\x01\x01\xff\x04\x05\x30\x03\x01\x01\xff\x30\x0a\x06\x08\x2a\x86\x48\xce\x3d\x04\x03\x02\x03\x47\x00\x30\x44\x02\x20\x58\x9e\x12\x50\x1a\xd9\x50\x00\x4b\x2c\x80\xb1\x14\x86\xf4\xb5\xbb\x8d\xef\xcc\x3b\x25\x37\x1a\x7e\xfc\x6a\x5f\x19\x45\x0a\xad\x02\x20\x36\x11\x43\x2b\x66\x99\x5f\xf9\xe8\x30\x4b\xa8\x5f\x83\xf6\xe5\xcf\xd8\x6d\xbc\xe2\xda\xf6\x1e\x0e\x60\xbe\x36\x14\xce\xb5\x68",
	SPKIStr: "\x30\x59\x30\x13\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07\x03\x42\x00\x04\x2d\xde\xbf\x56\x7b\xde\x7d\xdc\x82\x6a\x67\xb7\x52\xe6\x1c\xa9\xa3\x88\x36\x87\x32\x3b\xb8\x3b\xd3\xe1\x9e\x1b\x1e\xa0\x6a\x96\xb8\x2e\x64\x33\x6a\x75\x8a\xef\x99\x81\xb3\xb2\xc4\x2d\xfb\x34\x94\x68\x32\x1e\xed\x0a\x55\x17\xea\x69\xd7\x1c\xed\x34\x05\x60",
	PrivStr: "\x30\x81\x87\x02\x01\x00\x30\x13\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07\x04\x6d\x30\x6b\x02\x01\x01\x04\x20\x2a\x37\x50\xdd\xc6\x58\x8e\x48\x5b\x6c\x33\x74\xce\x27\x0a\x7a\xde\xc5\xa2\xa3\xa5\x40\x53\x84\xa6\x33\x0f\x8e\xef\x93\x36\x74\xa1\x44\x03\x42\x00\x04\x2d\xde\xbf\x56\x7b\xde\x7d\xdc\x82\x6a\x67\xb7\x52\xe6\x1c\xa9\xa3\x88\x36\x87\x32\x3b\xb8\x3b\xd3\xe1\x9e\x1b\x1e\xa0\x6a\x96\xb8\x2e\x64\x33\x6a\x75\x8a\xef\x99\x81\xb3\xb2\xc4\x2d\xfb\x34\x94\x68\x32\x1e\xed\x0a\x55\x17\xea\x69\xd7\x1c\xed\x34\x05\x60"}

var KeyE1 = &Key{Name: "E1", Type: "ec",
	CertStr: "\x30\x82\x01\x98\x30\x82\x01\x3f\xa0\x03\x02\x01\x02\x02\x02\x00\xc9\x30\x0a\x06\x08\x2a\x86\x48\xce\x3d\x04\x03\x02\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x45\x31\x30\x20\x17\x0d\x32\x36\x31\x31\x31\x39\x32\x32\x31\x31\x33\x34\x5a\x18\x0f\x32\x30\x35\x31\x30\x37\x31\x31\x32\x32\x31\x31\x33\x34\x5a\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x45\x31\x30\x59\x30\x13\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07\x03\x42\x00\x04\x0e\x80\xc0\x91\x19\xaa\xfc\x21\x80\xdd\x8e\x1f\x6e\x9c\x19\x54\x53\x38\xf1\x01\x40\x81\xda\x5b\xec\x8b\x3c\x86\x4f\xce\x77\xdf\xd9\x93\xce\x5b\xba\x32\xb3\x9b\xdb\x42\x5e\xf6\xb1\xe0\xea\x09\x1e\x92\xa5\x35\x0d\x04\xf6\xbd\x53\xcd\xd0\x13\x37\x46\xdb\xe7\xa3\x53\x30\x51\x30\x1d\x06\x03\x55\x1d\x0e\x04\x16\x04\x14\x92\x08\x72\x40\xd2\x15\x80\xdb\x33\xf2\x46\x99\x49\xc9\xc1\x65\x79\xbd\x91\xca\x30\x1f\x06\x03\x55\x1d\x23\x04\x18\x30\x16\x80\x14\x92\x08\x72\x40\xd2\x15\x80\xdb\x33\xf2\x46\x99\x49\xc9\xc1\x65\x79\xbd\x91\xca\x30\x0f\x06\x03\x55\x1d\x13\x01\x01\xff\x04\x05\x30\x03\x01\x01\xff\x30\x0a\x06\x08\x2a\x86\x48\xce\x3d\x04\x03\x02\x03\x47\x00\x30\x44\x02\x20\x30\x3a\x27\x4f\x4c\xb0\x1f\xc0\xa9\xcb\xf0\x61\x37\x1f\xcd\x85\x99\x6f\xc8\x22\xc5\xcc\x34\xbb\xcc\xbf\x75\x48\x39\x1a\xd3\x6d\x02\x20\x17\x51\xb5\xeb\x94\x19\x0d\x55\x58\x70\x6c\x75\x21\x2b\x83\xba\x95\x14\xb6\x8e\x3c\x3d\x70\x2e\x08\x35\x96\x71\xca\x37\x38\x20",
	SPKIStr: "\x30\x59\x30\x13\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07\x03\x42\x00\x04\x0e\x80\xc0\x91\x19\xaa\xfc\x21\x80\xdd\x8e\x1f\x6e\x9c\x19\x54\x53\x38\xf1\x01\x40\x81\xda\x5b\xec\x8b\x3c\x86\x4f\xce\x77\xdf\xd9\x93\xce\x5b\xba\x32\xb3\x9b\xdb\x42\x5e\xf6\xb1\xe0\xea\x09\x1e\x92\xa5\x35\x0d\x04\xf6\xbd\x53\xcd\xd0\x13\x37\x46\xdb\xe7",
	PrivStr: "\x30\x81\x87\x02\x01\x00\x30\x13\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07\x04\x6d\x30\x6b\x02\x01\x01\x04\x20\x7d\x3a\xc6\xd3\x1a\x42\x9a\xb2\x9c\x87\x24\xb0\x0f\x41\x67\xd0\xb6\x15\xdc\x33\x41\x93\xd2\xd0\x98\x86\x8d\x4e\xdd\x0f\xd3\x49\xa1\x44\x03\x42\x00\x04\x0e\x80\xc0\x91\x19\xaa\xfc\x21\x80\xdd\x8e\x1f\x6e\x9c\x19\x54\x53\x38\xf1\x01\x40\x81\xda\x5b\xec\x8b\x3c\x86\x4f\xce\x77\xdf\xd9\x93\xce\x5b\xba\x32\xb3\x9b\xdb\x42\x5e\xf6\xb1\xe0\xea\x09\x1e\x92\xa5\x35\x0d\x04\xf6\xbd\x53\xcd\xd0\x13\x37\x46\xdb\xe7"}

var KeyE2 = &Key{Name: "E2", Type: "ec",
	CertStr: "\x30\x82\x01\x99\x30\x82\x01\x3f\xa0\x03\x02\x01\x02\x02\x02\x00\xca\x30\x0a\x06\x08\x2a\x86\x48\xce\x3d\x04\x03\x02\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x45\x32\x30\x20\x17\x0d\x32\x36\x31\x31\x31\x39\x32\x32\x31\x31\x33\x34\x5a\x18\x0f\x32\x30\x35\x31\x30\x37\x31\x31\x32\x32\x31\x31\x33\x34\x5a\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x45\x32\x30\x59\x30\x13\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07\x03\x42\x00\x04\x19\xd2\xd7\xcd\x8c\x49\x67\x63\x80\xc7\x14\xb3\xbe\xc9\xd5\xc8\x6c\x04\x01\xec\xb8\x26\x1b\x37\x8f\x50\x6e\xed\xcd\xac\x97\x91\x4a\x7a\x6d\x7d\xef\x45\xe6\xfa\x65\x18\xd7\xa3\xfe\x4c\x54\xba\xaf\xbc\xa2\xbc\xee\x0c\x1e\xfe\xba\xfc\x6d\xc5\x6d\x50\x4e\xfe\xa3\x53\x30\x51\x30\x1d\x06\x03\x55\x1d\x0e\x04\x16\x04\x14\xce\xbe\x95\xec\x32\x3d\x8d\x44\x6f\xa3\x34\xff\xc3\x07\x69\x9d\x3a\xbe\xac\x06\x30\x1f\x06\x03\x55\x1d\x23\x04\x18\x30\x16\x80\x14\xce\xbe\x95\xec\x32\x3d\x8d\x44\x6f\xa3\x34\xff\xc3\x07\x69\x9d\x3a\xbe\xac\x06\x30\x0f\x06\x03\x55\x1d\x13\x01\x01\xff\x04\x05\x30\x03\x01\x01\xff\x30\x0a\x06\x08\x2a\x86\x48\xce\x3d\x04\x03\x02\x03\x48\x00\x30\x45\x02\x20\x4b\x1a\x67\x00\xf7\x3c\x40\x9c\x8f\x46\xa8\x3a\x0b\xd6\x70\x0b\xf7\x9b\x92\x15\x79\x06\x2f\x43\x03\x92\xe4\x96\x3d\x71\xd7\xdb\x02\x21\x00\xf0\xce\x93\x81\x09\xc5\x85\xe4\x31\x70\xde\xac\xb7\xbd\x59\xed\x3f\x1c\xed\xef\x7c\x92\xd7\x35\xa7\x89\xdc\x14\x3f\x64\x15\xd2",
	SPKIStr: "\x30\x59\x30\x13\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07\x03\x42\x00\x04\x19\xd2\xd7\xcd\x8c\x49\x67\x63\x80\xc7\x14\xb3\xbe\xc9\xd5\xc8\x6c\x04\x01\xec\xb8\x26\x1b\x37\x8f\x50\x6e\xed\xcd\xac\x97\x91\x4a\x7a\x6d\x7d\xef\x45\xe6\xfa\x65\x18\xd7\xa3\xfe\x4c\x54\xba\xaf\xbc\xa2\xbc\xee\x0c\x1e\xfe\xba\xfc\x6d\xc5\x6d\x50\x4e\xfe",
	PrivStr: "\x30\x81\x87\x02\x01\x00\x30\x13\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07\x04\x6d\x30\x6b\x02\x01\x01\x04\x20\x24\x0a\x4f\x4c\x8f\x83\x7b\x4c\x6c\x09\x89\xec\xf5\xe5\x26\xe8\x51\xbd\xd2\xa5\x00\x61\x65\xd4\x04\xce\x8c\x24\x67\x86\xfc\x23\xa1\x44\x03\x42\x00\x04\x19\xd2\xd7\xcd\x8c\x49\x67\x63\x80\xc7\x14\xb3\xbe\xc9\xd5\xc8\x6c\x04\x01\xec\xb8\x26\x1b\x37\x8f\x50\x6e\xed\xcd\xac\x97\x91\x4a\x7a\x6d\x7d\xef\x45\xe6\xfa\x65\x18\xd7\xa3\xfe\x4c\x54\xba\xaf\xbc\xa2\xbc\xee\x0c\x1e\xfe\xba\xfc\x6d\xc5\x6d\x50\x4e\xfe"}

var KeyD0 = &Key{Name: "D0", Type: "dsa",
	CertStr: "\x30\x82\x02\xe3\x30\x82\x02\xa0\xa0\x03\x02\x01\x02\x02\x02\x01\x2c\x30\x0b\x06\x09\x60\x86\x48\x01\x65\x03\x04\x03\x02\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x44\x30\x30\x20\x17\x0d\x32\x36\x31\x31\x31\x39\x32\x32\x31\x31\x33\x34\x5a\x18\x0f\x32\x30\x35\x31\x30\x37\x31\x31\x32\x32\x31\x31\x33\x34\x5a\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x44\x30\x30\x82\x01\xb7\x30\x82\x01\x2c\x06\x07\x2a\x86\x48\xce\x38\x04\x01\x30\x82\x01\x1f\x02\x81\x81\x00\xe0\x03\x83\xe5\xe2\x21\x74\xe3\x16\x0d\xa0\x85\x8f\x53\x99\xe5\xaf\xc2\x7f\x00\xf1\xdd\xfb\xe6\xc9\x36\x7b\x40\x4a\x3c\x9a\x22\xba\xbb\x31\x36\xb7\xb5\xed\xcb\xe2\x52\xda\xd6\x57\xc7\xb7\x6a\x4b\xbf\xb7\xe0\x12\xe6\x11\x0a\xc8\x99\xa7\x77\xc2\xab\x6e\x72\x91\x1d\xe5\x0c\x01\x8d\x73\x92\x81\xec\x50\x9a\xde\x34\xe5\x79\xb1\x3b\x3f\xb7\x19\xf9\x53\xdd\x1e\x87\x9d\x0d\x61\xf7\x0e\x4f\xa9\x59\xa8\x5c\xd1\xf2\x30\xe1\xa6\x00\x4e\x7e\xa4\xb7\x8a\x97\x37\x3a\x3a\xa8\x81\x8e\xaf\xc0\x5f\x14\x21\x3a\x24\x20\xf3\x2d\x02\x15\x00\xf8\xb6\x56\x26\x0f\xe6\x4a\x53\xb0\xb5\xd2\xd2\xa5\x98\x07\x16\xb2\x7b\xad\xfd\x02\x81\x81\x00\xa2\x5c\x0e\xdd\xb7\xb3\x51\x1b\x72\x71\x1d\xd8\x82\x70\x0c\x38\x76\x8a\xea\x8f\xbb\x52\x9a\xf6\x05\xb2\xaf\xfb\x12\xb0\xfd\x3a\x49\xe3\xae\x84\x8c\x49\x85\xbe\x0c\xd9\xd8\x94\x13\x76\xd7\x3b\xff\xf6\x0d\xfd\x73\x0d\x83\x7f\xfc\xe7\x89\x22\x25\xff\xc3\xd0\x6b\xaf\x55\xb4\xf2\xe9\xcd\xa1\x76\x09\x11\x13\x21\xa3\x73\xe5\x4b\x18\xf3\x57\x86\xf7\x45\x65\x2e\xd3\x01\x6e\xc3\xff\x1f\x09\x22\x71\x25\x93\x3c\xa7\xdd\x8d\x41\x33\x67\x03\xa4\xaf\xa8\xad\x85\xd4\xff\x1e\xf2\x08\xb4\xa1\x66\x7e\x0a\x7c\x97\x59\xf8\xf5\x03\x81\x84\x00\x02\x81\x80\x59\x28\x65\x87\xb1\x38\x69\x7c\x21\xb1\xd1\xa6\x61\xe0\x30\x4d\x41\x54\xeb\xd0\x69\x4b\x1c\x09\xf8\xcf\x7b\x14\x23\x10\x14\xf1\xaf\x89\x38\x39\x1a\x6c\xb6\x19\xff\x98\xf4\xc3\x70\x86\xd6\xb5\x46\x83\xf3\xe5\x59\x98\x37\x76\xe5\xc1\x86\x10\x2b\x36\x1d\x52\x91\x78\xfc\xe1\xb5\x5b\xcf\x7f\x57\xd1\xa7\xce\x0a\x4c\xd3\xaf\x0f\x8d\xc6\x3c\xf8\x6f\xfa\x72\x77\xf2\x45\xca\x08\x93\x18\x71\x0e\x18\xa1\xb0\xa9\xdb\xb2\x35\x9d\x68\x84\x7f\xcf\x9e\x09\x68\xe9\x75\x94\x7e\xeb\x05\x6f\xa0\x41\x67\x27\x5f\x65\xa9\x4f\xae\xa3\x53\x30\x51\x30\x1d\x06\x03\x55\x1d\x0e\x04\x16\x04\x14\x36\x21\xae\xea\x64\xf9\x10\x7b\xbf\xdb\xe9\x3d\x57\xed\x28\x25\x50\x8f\x90\x3d\x30\x1f\x06\x03\x55\x1d\x23\x04\x18\x30\x16\x80\x14\x36\x21\xae\xea\x64\xf9\x10\x7b\xbf\xdb\xe9\x3d\x57\xed\x28\x25\x50\x8f\x90\x3d\x30\x0f\x06\x03\x55\x1d\x13\x01\x01\xff\x04\x05\x30\x03\x01\x01\xff\x30\x0b\x06\x09\x60\x86\x48\x01\x65\x03\x04\x03\x02\x03\x30\x00\x30\x2d\x02\x14\x08\x70\x77\x2e\xe2\x9a\x42\x95\x23\x06\xda\xa8\x17\xc8\xdd\xcc\xab\x88\xaf\x94\x02\x15\x00\xe9\x75\xa1\xda\xe7\x2c\x1e\x22\x7c\x43\xc1\x6a\xab\xff\xe8\x09\x84\xe6\xee\x19",
	SPKIStr: "\x30\x82\x01\xb7\x30\x82\x01\x2c\x06\x07\x2a\x86\x48\xce\x38\x04\x01\x30\x82\x01\x1f\x02\x81\x81\x00\xe0\x03\x83\xe5\xe2\x21\x74\xe3\x16\x0d\xa0\x85\x8f\x53\x99\xe5\xaf\xc2\x7f\x00\xf1\xdd\xfb\xe6\xc9\x36\x7b\x40\x4a\x3c\x9a\x22\xba\xbb\x31\x36\xb7\xb5\xed\xcb\xe2\x52\xda\xd6\x57\xc7\xb7\x6a\x4b\xbf\xb7\xe0\x12\xe6\x11\x0a\xc8\x99\xa7\x77\xc2\xab\x6e\x72\x91\x1d\xe5\x0c\x01\x8d\x73\x92\x81\xec\x50\x9a\xde\x34\xe5\x79\xb1\x3b\x3f\xb7\x19\xf9\x53\xdd\x1e\x87\x9d\x0d\x61\xf7\x0e\x4f\xa9\x59\xa8\x5c\xd1\xf2\x30\xe1\xa6\x00\x4e\x7e\xa4\xb7\x8a\x97\x37\x3a\x3a\xa8\x81\x8e\xaf\xc0\x5f\x14\x21\x3a\x24\x20\xf3\x2d\x02\x15\x00\xf8\xb6\x56\x26\x0f\xe6\x4a\x53\xb0\xb5\xd2\xd2\xa5\x98\x07\x16\xb2\x7b\xad\xfd\x02\x81\x81\x00\xa2\x5c\x0e\xdd\xb7\xb3\x51\x1b\x72\x71\x1d\xd8\x82\x70\x0c\x38\x76\x8a\xea\x8f\xbb\x52\x9a\xf6\x05\xb2\xaf\xfb\x12\xb0\xfd\x3a\x49\xe3\xae\x84\x8c\x49\x85\xbe\x0c\xd9\xd8\x94\x13\x76\xd7\x3b\xff\xf6\x0d\xfd\x73\x0d\x83\x7f\xfc\xe7\x89\x22\x25\xff\xc3\xd0\x6b\xaf\x55\xb4\xf2\xe9\xcd\xa1\x76\x09\x11\x13\x21\xa3\x73\xe5\x4b\x18\xf3\x57\x86\xf7\x45\x65\x2e\xd3\x01\x6e\xc3\xff\x1f\x09\x22\x71\x25\x93\x3c\xa7\xdd\x8d\x41\x33\x67\x03\xa4\xaf\xa8\xad\x85\xd4\xff\x1e\xf2\x08\xb4\xa1\x66\x7e\x0a\x7c\x97\x59\xf8\xf5\x03\x81\x84\x00\x02\x81\x80\x59\x28\x65\x87\xb1\x38\x69\x7c\x21\xb1\xd1\xa6\x61\xe0\x30\x4d\x41\x54\xeb\xd0\x69\x4b\x1c\x09\xf8\xcf\x7b\x14\x23\x10\x14\xf1\xaf\x89\x38\x39\x1a\x6c\xb6\x19\xff\x98\xf4\xc3\x70\x86\xd6\xb5\x46\x83\xf3\xe5\x59\x98\x37\x76\xe5\xc1\x86\x10\x2b\x36\x1d\x52\x91\x78\xfc\xe1\xb5\x5b\xcf\x7f\x57\xd1\xa7\xce\x0a\x4c\xd3\xaf\x0f\x8d\xc6\x3c\xf8\x6f\xfa\x72\x77\xf2\x45\xca\x08\x93\x18\x71\x0e\x18\xa1\xb0\xa9\xdb\xb2\x35\x9d\x68\x84\x7f\xcf\x9e\x09\x68\xe9\x75\x94\x7e\xeb\x05\x6f\xa0\x41\x67\x27\x5f\x65\xa9\x4f\xae",
	PrivStr: "\x00\xa6\x16\x37\x0e\x60\xad\xa5\xe0\x69\xfa\x59\x4c\x9a\x82\x22\xd3\x60\x16\x43\x52"}

var KeyD1 = &Key{Name: "D1", Type: "dsa",
	CertStr: "\x30\x82\x04\x8b\x30\x82\x04\x30\xa0\x03\x02\x01\x02\x02\x02\x01\x2d\x30\x0b\x06\x09\x60\x86\x48\x01\x65\x03\x04\x03\x02\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x44\x31\x30\x20\x17\x0d\x32\x36\x31\x31\x31\x39\x32\x32\x31\x31\x33\x35\x5a\x18\x0f\x32\x30\x35\x31\x30\x37\x31\x31\x32\x32\x31\x31\x33\x35\x5a\x30\x2a\x31\x0b\x30\x09\x06\x03\x55\x04\x06\x13\x02\x43\x5a\x31\x0e\x30\x0c\x06\x03\x55\x04\x0a\x0c\x05\x56\x65\x72\x69\x66\x31\x0b\x30\x09\x06\x03\x55\x04\x03\x0c\x02\x44\x31\x30\x82\x03\x47\x30\x82\x02\x3a\x06\x07\x2a\x86\x48\xce\x38\x04\x01\x30\x82\x02\x2d\x02\x82\x01\x01\x00\xef\xaf\xb5\xa7\x37\x76\x5b\x4d\xcf\x5f\x7e\xeb\x91\x87\xf0\xc0\x22\xaa\x17\x9e\xee\x1a\xfa\x65\x51\x75\x45\xb1\x29\x65\x47\x90\xf2\x43\x61\x38\x01\xde\xfd\xd3\x3d\x5a\xd2\x6f\x3b\xda\xf6\x72\x38\x42\x64\x7c\x18\x29\xcc\xa3\xff\xf2\x38\x8d\xb1\x8d\x8b\xd1\x0b\x9d\xb0\xaf\xc3\xcb\x37\x55\xf8\xa6\x50\xad\x3d\x8d\xf0\xea\x58\x09\x23\x7f\xac\xc4\xf4\x30\x7a\x61\x08\x4c\x87\x46\x08\xa8\x37\x79\x24\x27\x19\x9c\xd0\x1d\x1b\x35\x9f\x48\x53\xcb\x81\x34\xab\x64\x95\xa2\x01\x06\xdf\x7b\xcb\x00\x3c\xd6\xe6\x4c\x61\x5a\x6c\xc0\x07\xa2\x1b\x5d\xc0\x77\xe5\xdb\xee\x1b\xb2\x6d\x2d\x46\xff\x5c\xc4\x1b\xb0\x26\x35\xaa\x1e\xbe\xcb\xac\x02\xec\x8d\xe6\x29\xc4\x2a\x93\x8e\xab\x80\x01\x5f\x8b\x13\xf4\x5a\x08\x32\xde\x19\x97\x7c\x3d\xc6\x7f\x9f\xce\xb3\xe5\x60\x39\xce\x24\x1f\x06\xf4\x0a\xdb\xd1\x3a\xa3\x26\x6c\x3f\x66\x7c\x73\x5e\xb5\x61\x23\xbc\x47\xe1\xdc\x03\x4a\xaf\x46\xed\x00\x5d\x84\x33\x9b\x1d\x35\x88\x26\x7e\xa8\x34\xa9\x65\xae\x60\x51\xec\x41\x70\x54\x21\x38\x9f\x53\x7a\x02\xbd\x3c\xee\x93\x9c\x49\x41\x46\x62\xd0\x58\x63\x02\x21\x00\xd5\x87\xf5\x31\x26\xc4\x42\x0e\x69\xbc\xbd\x67\xab\xc4\xb9\x2a\x2e\xeb\x42\xa2\xde\xa9\xf1\x06\xd1\x89\xc1\x09\xe7\x05\x8b\xa7\x02\x82\x01\x01\x00\xe0\x35\xf6\x26\x3b\xa0\x39\xdb\xe5\x4f\x16\x9c\x16\x18\x86\xce\x24\x45\xfc\x6f\xfe\x20\x52\x7a\x05\x97\xcc\x4b\x57\xcf\x20\x30\x68\xd5\xde\xf8\xaf\x60\x4e\xd7\x15\xe9\xed\xc3\xa5\xca\x87\xd5\x77\xce\x7d\x50\xc5\x35\xaf\x37\x85\x6e\x7b\x23\x3a\xf4\xb2\x8f\xde\xe0\x58\xaa\x66\x80\x41\xa1\x21\x29\x83\xb2\x2f\x95\x07\xa5\x89\x30\x0d\xd6\x16\x49\x9e\x32\x5d\x06\x0c\x62\x15\x1f\xec\xce\x0a\x97\x49\x12\xc9\x1c\x94\xf4\x21\x0a\xeb\xb3\xc2\x39\x56\xf4\x26\x5b\xc8\xee\xd1\xd4\xf8\x3f\xdb\x23\x6b\xc5\x5d\x90\xa8\x78\x57\x66\x08\x43\xa2\x2d\xbc\xff\x0d\xb2\xfd\x0b\x8a\x9d\xb9\x84\x83\xb1\xee\x3f\xa5\xf2\x40\x26\x71\xe5\x13\xaa\xb1\x70\xe2\x90\x4f\x4f\x41\x2b\x46\x4d\xcf\x56\x77\x6c\xc0\x65\x4b\x7f\x90\xee\xd4\x5a\x77\x57\x0b\x43\xc7\xc5\x4d\x3f\x17\x64\x12\x8d\xe3\xb1\xf2\x92\x88\xba\xcd\x33\x2f\x1a\x64\xe5\x06\x55\x67\xe6\x7f\x13\x64\xbc\x75\x2a\xca\xe6\x1f\x30\xf0\xa8\x82\xca\xde\x02\x94\x3c\x7e\x77\xbb\x69\x33\x9b\xb3\x0e\x24\x15\xa2\xe8\xb9\x5e\x17\xfc\x93\x9a\x1d\xc9\xde\x11\xdc\x68\xa2\x20\x63\xb9\x13\x54\xed\x18\x03\x82\x01\x05\x00\x02\x82\x01\x00\x1e\x4c\x5f\xfd\x0f\xef\x65\x32\x4a\xb7\x2b\x6c\xd4\x76\xcc\xb8\xb1\x60\x43\xf7\x57\x4a\xad\xa8\x2a\xaa\x75\x36\x5c\xad\x39\x0d\x6f\x96\xa6\xb8\x46\x8b\xb1\xdd\x16\xfb\x60\x77\xab\x00\xa3\xab\x9e\x3f\x3c\x61\x23\xc8\xdc\x3b\x26\x59\x8a\x92\x04\x95\x77\x66\xb3\xfd\x0d\x0a\x9c\x8a\x75\x52\xea\x8c\x98\xad\x95\x7a\x88\xe7\x79\x6c\x04\xc3\xa0\xff\x4b\xa7\x29\x28\x00\x26\xd4\x48\xb8\x85\x05\x92\x17\x97\x6e\x0c\x3c\x6a\xcb\x71\xf7\x0f\x7c\x59\x43\x68\x62\x9f\x31\xb8\x6a\x0d\x19\x5e\xf6\x66\xa7\xf7\xef\x50\x4c\x06\x0e\x8f\x41\xe6\x51\x59\x92\xc7\x61\x29\x99\xc1\x45\xad\xfe\xe4\x36\xdd\x02\x25\x51\x69\x71\xd2\x5b\xc7\x2b\x43\x3d\x6e\x5c\xc3\xc4\x4e\x28\x99\x19\x68\x25\x77\x16\x5d\xb4\x9c\xdd\x3b\x32\x10\xb3\x79\x82\x5e\x8a\x1e\x4c\x3e\x5a\xea\x92\x75\x8f\x7f\xdf\xa6\xd4\x1c\x77\xef\x9b\x69\xcd\xaf\x77\xff\x0f\x1c\xe0\x8b\x55\x82\xa5\x03\x90\xcd\x32\x13\x3b\x6b\x3d\x89\x61\xe4\x94\x91\x2e\xe1\x94\xb0\xfc\x67\xfe\x1a\x81\xd6\xa3\xb1\x11\x18\x38\x4d\x63\xd0\xcf\xe0\x63\xad\xc6\xe4\x9a\xae\x0b\xd7\x0a\xb7\x69\x45\x95\x51\xa3\x53\x30\x51\x30\x1d\x06\x03\x55\x1d\x0e\x04\x16\x04\x14\x0b\xc3\x40\x89\x7d\xdd\x81\x7e\xc5\x44\x3c\x2d\x5c\x16\x37\x87\xb0\x56\xe5\x73\x30\x1f\x06\x03\x55\x1d\x23\x04\x18\x30\x16\x80\x14\x0b\xc3\x40\x89\x7d\xdd\x81\x7e\xc5\x44\x3c\x2d\x5c\x16\x37\x87\xb0\x56\xe5\x73\x30\x0f\x06\x03\x55\x1d\x13\x01\x01\xff\x04\x05\x30\x03\x01\x01\xff\x30\x0b\x06\x09\x60\x86\x48\x01\x65\x03\x04\x03\x02\x03\x48\x00\x30\x45\x02\x20\x18\xb7\xc7\x46\x8b\xc3\x3a\x05\x55\x32\xd0\xaf\x57\xe3\x37\xcd\x04\xb2\xee\xdb\x31\x08\xc6\xbf\xb5\xda\x5c\x8c\xe1\x7f\x22\x3a\x02\x21\x00\xcf\x76\xe9\x07\x58\x55\xb7\x84\x1f\x0c\x70\xb8\x79\x3c\xe2\xd5\xc1\x75\x82\x0b\x2b\x49\x62\xc4\xf4\x10\x84\xaf\x96\x94\xf7\x94",
	SPKIStr: "\x30\x82\x03\x47\x30\x82\x02\x3a\x06\x07\x2a\x86\x48\xce\x38\x04\x01\x30\x82\x02\x2d\x02\x82\x01\x01\x00\xef\xaf\xb5\xa7\x37\x76\x5b\x4d\xcf\x5f\x7e\xeb\x91\x87\xf0\xc0\x22\xaa\x17\x9e\xee\x1a\xfa\x65\x51\x75\x45\xb1\x29\x65\x47\x90\xf2\x43\x61\x38\x01\xde\xfd\xd3\x3d\x5a\xd2\x6f\x3b\xda\xf6\x72\x38\x42\x64\x7c\x18\x29\xcc\xa3\xff\xf2\x38\x8d\xb1\x8d\x8b\xd1\x0b\x9d\xb0\xaf\xc3\xcb\x37\x55\xf8\xa6\x50\xad\x3d\x8d\xf0\xea\x58\x09\x23\x7f\xac\xc4\xf4\x30\x7a\x61\x08\x4c\x87\x46\x08\xa8\x37\x79\x24\x27\x19\x9c\xd0\x1d\x1b\x35\x9f\x48\x53\xcb\x81\x34\xab\x64\x95\xa2\x01\x06\xdf\x7b\xcb\x00\x3c\xd6\xe6\x4c\x61\x5a\x6c\xc0\x07\xa2\x1b\x5d\xc0\x77\xe5\xdb\xee\x1b\xb2\x6d\x2d\x46\xff\x5c\xc4\x1b\xb0\x26\x35\xaa\x1e\xbe\xcb\xac\x02\xec\x8d\xe6\x29\xc4\x2a\x93\x8e\xab\x80\x01\x5f\x8b\x13\xf4\x5a\x08\x32\xde\x19\x97\x7c\x3d\xc6\x7f\x9f\xce\xb3\xe5\x60\x39\xce\x24\x1f\x06\xf4\x0a\xdb\xd1\x3a\xa3\x26\x6c\x3f\x66\x7c\x73\x5e\xb5\x61\x23\xbc\x47\xe1\xdc\x03\x4a\xaf\x46\xed\x00\x5d\x84\x33\x9b\x1d\x35\x88\x26\x7e\xa8\x34\xa9\x65\xae\x60\x51\xec\x41\x70\x54\x21\x38\x9f\x53\x7a\x02\xbd\x3c\xee\x93\x9c\x49\x41\x46\x62\xd0\x58\x63\x02\x21\x00\xd5\x87\xf5\x31\x26\xc4\x42\x0e\x69\xbc\xbd\x67\xab\xc4\xb9\x2a\x2e\xeb\x42\xa2\xde\xa9\xf1\x06\xd1\x89\xc1\x09\xe7\x05\x8b\xa7\x02\x82\x01\x01\x00\xe0\x35\xf6\x26\x3b\xa0\x39\xdb\xe5\x4f\x16\x9c\x16\x18\x86\xce\x24\x45\xfc\x6f\xfe\x20\x52\x7a\x05\x97\xcc\x4b\x57\xcf\x20\x30\x68\xd5\xde\xf8\xaf\x60\x4e\xd7\x15\xe9\xed\xc3\xa5\xca\x87\xd5\x77\xce\x7d\x50\xc5\x35\xaf\x37\x85\x6e\x7b\x23\x3a\xf4\xb2\x8f\xde\xe0\x58\xaa\x66\x80\x41\xa1\x21\x29\x83\xb2\x2f\x95\x07\xa5\x89\x30\x0d\xd6\x16\x49\x9e\x32\x5d\x06\x0c\x62\x15\x1f\xec\xce\x0a\x97\x49\x12\xc9\x1c\x94\xf4\x21\x0a\xeb\xb3\xc2\x39\x56\xf4\x26\x5b\xc8\xee\xd1\xd4\xf8\x3f\xdb\x23\x6b\xc5\x5d\x90\xa8\x78\x57\x66\x08\x43\xa2\x2d\xbc\xff\x0d\xb2\xfd\x0b\x8a\x9d\xb9\x84\x83\xb1\xee\x3f\xa5\xf2\x40\x26\x71\xe5\x13\xaa\xb1\x70\xe2\x90\x4f\x4f\x41\x2b\x46\x4d\xcf\x56\x77\x6c\xc0\x65\x4b\x7f\x90\xee\xd4\x5a\x77\x57\x0b\x43\xc7\xc5\x4d\x3f\x17\x64\x12\x8d\xe3\xb1\xf2\x92\x88\xba\xcd\x33\x2f\x1a\x64\xe5\x06\x55\x67\xe6\x7f\x13\x64\xbc\x75\x2a\xca\xe6\x1f\x30\xf0\xa8\x82\xca\xde\x02\x94\x3c\x7e\x77\xbb\x69\x33\x9b\xb3\x0e\x24\x15\xa2\xe8\xb9\x5e\x17\xfc\x93\x9a\x1d\xc9\xde\x11\xdc\x68\xa2\x20\x63\xb9\x13\x54\xed\x18\x03\x82\x01\x05\x00\x02\x82\x01\x00\x1e\x4c\x5f\xfd\x0f\xef\x65\x32\x4a\xb7\x2b\x6c\xd4\x76\xcc\xb8\xb1\x60\x43\xf7\x57\x4a\xad\xa8\x2a\xaa\x75\x36\x5c\xad\x39\x0d\x6f\x96\xa6\xb8\x46\x8b\xb1\xdd\x16\xfb\x60\x77\xab\x00\xa3\xab\x9e\x3f\x3c\x61\x23\xc8\xdc\x3b\x26\x59\x8a\x92\x04\x95\x77\x66\xb3\xfd\x0d\x0a\x9c\x8a\x75\x52\xea\x8c\x98\xad\x95\x7a\x88\xe7\x79\x6c\x04\xc3\xa0\xff\x4b\xa7\x29\x28\x00\x26\xd4\x48\xb8\x85\x05\x92\x17\x97\x6e\x0c\x3c\x6a\xcb\x71\xf7\x0f\x7c\x59\x43\x68\x62\x9f\x31\xb8\x6a\x0d\x19\x5e\xf6\x66\xa7\xf7\xef\x50\x4c\x06\x0e\x8f\x41\xe6\x51\x59\x92\xc7\x61\x29\x99\xc1\x45\xad\xfe\xe4\x36\xdd\x02\x25\x51\x69\x71\xd2\x5b\xc7\x2b\x43\x3d\x6e\x5c\xc3\xc4\x4e\x28\x99\x19\x68\x25\x77\x16\x5d\xb4\x9c\xdd\x3b\x32\x10\xb3\x79\x82\x5e\x8a\x1e\x4c\x3e\x5a\xea\x92\x75\x8f\x7f\xdf\xa6\xd4\x1c\x77\xef\x9b\x69\xcd\xaf\x77\xff\x0f\x1c\xe0\x8b\x55\x82\xa5\x03\x90\xcd\x32\x13\x3b\x6b\x3d\x89\x61\xe4\x94\x91\x2e\xe1\x94\xb0\xfc\x67\xfe\x1a\x81\xd6\xa3\xb1\x11\x18\x38\x4d\x63\xd0\xcf\xe0\x63\xad\xc6\xe4\x9a\xae\x0b\xd7\x0a\xb7\x69\x45\x95\x51",
	PrivStr: "\x00\x8c\xef\x00\xaf\xb7\xc8\x82\x51\x1c\xca\x45\xf5\xac\xa4\x17\x89\x14\xdf\xd8\x23\x59\x5e\x04\xd3\xc8\xa4\xb5\xf0\xb4\x54\xb8\x26"}
