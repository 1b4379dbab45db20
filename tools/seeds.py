"""The planted bugs: see mkseeds.py."""

# ---------------------------------------------------------------- shared pieces of demonstrations

MD = r'''
    use crate::block_device::{BlockDevice, BlockNumber, BlockSize, InMemoryBlockDevice};
    #[allow(unused_imports)]
    use crate::md::{MdArray, MdDevice};

    fn put(b: &mut [u8], at: usize, v: u64, n: usize) {
        b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
    }

    #[allow(dead_code)]
    struct Sb {
        index: u32,
        roles: Vec<u16>,
        level: u32,
        layout: u32,
        devices: u32,
        chunk: u32,
        sectors: u64,
        offset: u64,
        events: u64,
    }

    impl Sb {
        fn bytes(&self) -> Vec<u8> {
            let mut b = vec![0u8; 4096];
            put(&mut b, 0, 0xa92b4efc, 4);
            put(&mut b, 4, 1, 4);
            b[16..32].fill(7);
            put(&mut b, 72, self.level.into(), 4);
            put(&mut b, 76, self.layout.into(), 4);
            put(&mut b, 80, self.sectors, 8);
            put(&mut b, 88, self.chunk.into(), 4);
            put(&mut b, 92, self.devices.into(), 4);
            put(&mut b, 128, self.offset, 8);
            put(&mut b, 160, self.index.into(), 4);
            put(&mut b, 200, self.events, 8);
            put(&mut b, 220, self.roles.len() as u64, 4);
            for (i, r) in self.roles.iter().enumerate() {
                put(&mut b, 256 + 2 * i, (*r).into(), 2);
            }
            b
        }
    }

    /// A member with a version 1.2 superblock and data after it.
    #[allow(dead_code)]
    fn member(sb: &Sb, data: &[u8]) -> MdDevice<InMemoryBlockDevice> {
        let at = sb.offset as usize * 512;
        let mut b = vec![0u8; at + data.len().max(sb.sectors as usize * 512)];
        b[4096..8192].copy_from_slice(&sb.bytes());
        b[at..at + data.len()].copy_from_slice(data);
        MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(512)), Some("x")).unwrap()
    }

    #[allow(dead_code)]
    fn read(a: &mut MdArray<InMemoryBlockDevice>, n: u64) -> std::io::Result<Vec<u8>> {
        let mut b = vec![0; 512];
        a.read_block(BlockNumber(n), &mut b).map(|_| b)
    }
'''

EXT = r'''
    #[allow(unused_imports)]
    use crate::block_device::{BlockDevice, BlockSize, InMemoryBlockDevice};
    #[allow(unused_imports)]
    use crate::ext4::crc::ext4_crc32c;
    #[allow(unused_imports)]
    use crate::ext4::units::InodeNumber;
    #[allow(unused_imports)]
    use crate::ext4::{Ext4File, Ext4Fs};

    fn put(b: &mut [u8], at: usize, v: u64, n: usize) {
        b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
    }

    /// A filesystem of 64 blocks of 1 KiB, one group of 32 inodes of 256 bytes
    /// at block 8, and no contents.
    struct Mini(Vec<u8>);

    #[allow(dead_code)]
    impl Mini {
        fn new(checksums: bool) -> Self {
            let mut b = vec![0u8; 64 * 1024];
            let s = 1024;
            put(&mut b, s, 32, 4);
            put(&mut b, s + 4, 64, 4);
            put(&mut b, s + 0x14, 1, 4);
            put(&mut b, s + 0x20, 8192, 4);
            put(&mut b, s + 0x24, 8192, 4);
            put(&mut b, s + 0x28, 32, 4);
            put(&mut b, s + 0x38, 0xef53, 2);
            put(&mut b, s + 0x3a, 1, 2);
            put(&mut b, s + 0x3c, 1, 2);
            put(&mut b, s + 0x4c, 1, 4);
            put(&mut b, s + 0x54, 11, 4);
            put(&mut b, s + 0x58, 256, 2);
            put(&mut b, s + 0x60, 0x42, 4);
            if checksums {
                put(&mut b, s + 0x64, 0x400, 4);
                b[s + 0x175] = 1;
            }
            b[s + 0x68..s + 0x78].fill(0x5a);
            put(&mut b, 2048, 3, 4);
            put(&mut b, 2052, 4, 4);
            put(&mut b, 2056, 8, 4);
            let mut m = Mini(b);
            m.seal();
            m
        }

        fn sb(&mut self, at: usize, v: u64, n: usize) {
            put(&mut self.0, 1024 + at, v, n);
            self.seal();
        }

        fn seal(&mut self) {
            let c = ext4_crc32c(!0, &self.0[1024..1024 + 0x3fc]);
            put(&mut self.0, 1024 + 0x3fc, c.into(), 4);
        }

        fn inode_at(n: u32) -> usize {
            8 * 1024 + (n as usize - 1) * 256
        }

        /// An inode with extents (first block of the file, length, first block).
        fn inode(&mut self, n: u32, mode: u16, size: u64, extents: &[(u32, u16, u64)]) {
            let i = Self::inode_at(n);
            let b = &mut self.0;
            put(b, i, mode.into(), 2);
            put(b, i + 4, size & 0xffffffff, 4);
            put(b, i + 26, 1, 2);
            put(b, i + 32, 0x80000, 4);
            put(b, i + 100, 0x1234567, 4);
            put(b, i + 108, size >> 32, 4);
            put(b, i + 128, 32, 2);
            let h = i + 40;
            put(b, h, 0xf30a, 2);
            put(b, h + 2, extents.len() as u64, 2);
            put(b, h + 4, 4, 2);
            for (k, (first, len, block)) in extents.iter().enumerate() {
                let e = h + 12 + 12 * k;
                put(b, e, (*first).into(), 4);
                put(b, e + 4, (*len).into(), 2);
                put(b, e + 6, block >> 32, 2);
                put(b, e + 8, block & 0xffffffff, 4);
            }
        }

        /// Directory entries (inode, record length, name) in a block.
        fn dir(&mut self, block: usize, entries: &[(u32, usize, &str)]) {
            let mut o = block * 1024;
            for (ino, rec, name) in entries {
                let b = &mut self.0;
                put(b, o, (*ino).into(), 4);
                put(b, o + 4, *rec as u64, 2);
                b[o + 6] = name.len() as u8;
                b[o + 7] = 1;
                b[o + 8..o + 8 + name.len()].copy_from_slice(name.as_bytes());
                o += rec;
            }
        }

        fn device(&self) -> InMemoryBlockDevice {
            InMemoryBlockDevice::new(self.0.clone(), BlockSize(512))
        }

        fn fs(&self) -> std::io::Result<Ext4Fs<InMemoryBlockDevice>> {
            Ext4Fs::open(self.device())
        }
    }

    #[allow(dead_code)]
    fn names<D: BlockDevice + std::io::Read + std::io::Seek>(f: Ext4File<D>) -> Vec<String> {
        let Ext4File::Directory(mut d) = f else { panic!("not a directory") };
        let mut v = vec![];
        for _ in 0..100 {
            match d.read_next_entry() {
                Ok(Some(e)) => v.push(format!("{} {}", u32::from(e.inode()), e.name())),
                Ok(None) => break,
                Err(_) => v.push("error".into()),
            }
        }
        v
    }
'''


def mod(*parts):
    return "\n#[cfg(test)]\nmod vh_demo {\n" + "".join(parts) + "}\n"


SEEDS = []


def seed(**k):
    SEEDS.append(k)


# ---------------------------------------------------------------- C01

seed(id="c01-raid5-stripe-32bit", property="C01",
     needs="a RAID-5 left layout with a number of members which is not a power of two, and a sector whose stripe number "
           "is 2^32 or more",
     breaks="the parity member is computed from the low 32 bits of the stripe number, so data is looked for on the wrong member",
     edits=[("src/md/raid5/algorithm.rs",
             "                .checked_sub(u64::from(stripe_number).checked_rem(u64::from(raid_device_count))?)?,\n",
             "                .checked_sub(u64::from(\n"
             "                    (u64::from(stripe_number) as u32).checked_rem(u32::from(raid_device_count))?,\n"
             "                ))?,\n")],
     file="src/md/raid5/algorithm.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        // The layout repeats after as many stripes as there are members.
        let at = |stripe: u64| {
            Raid5Algorithm::LeftAsymmetric
                .compute_sector(SectorNumber(stripe * 8 * 2), SectorCount(8), DeviceCount(3))
                .unwrap()
        };
        let big = 3 * (1u64 << 31);
        for s in 0..6 {
            assert_eq!((at(s).1, at(s).2), (at(big + s).1, at(big + s).2));
        }
    }
'''))

seed(id="c01-raid6-left-symmetric-6", property="C01",
     needs="the layout LEFT_SYMMETRIC_6 and a stripe whose data wraps around the parity member",
     breaks="the rotation of data members includes the last member, which holds Q in this layout",
     edits=[("src/md/raid6/algorithm.rs",
             "                        .checked_add(1)?\n                        .checked_add(u64::from(data_device_number))?\n"
             "                        .checked_rem(u64::from(raid_device_count).checked_sub(1)?)?\n",
             "                        .checked_add(1)?\n                        .checked_add(u64::from(data_device_number))?\n"
             "                        .checked_rem(u64::from(raid_device_count))?\n")],
     file="src/md/raid6/algorithm.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        for stripe in 0..10u64 {
            for chunk in 0..3u64 {
                let (_, p, q, d) = Raid6Algorithm::LeftSymmetric6
                    .compute_sector(SectorNumber((stripe * 3 + chunk) * 8), SectorCount(8), DeviceCount(5))
                    .unwrap();
                assert!(p != q && d != p && d != q);
            }
        }
    }
'''))

# ---------------------------------------------------------------- C02

seed(id="c02-blank-parity", property="C02",
     needs="a member whose parity sector reads as zeros (a blanked or replaced disk) while the data of the stripe is not "
           "consistent with it",
     breaks="a stripe whose parity is zero is taken as not yet written and is not verified",
     edits=[("src/md/raid6/algorithm.rs",
             "            if xor != p_buffer[i] {\n",
             "            if xor != p_buffer[i] && p_buffer.iter().any(|byte| *byte != 0) {\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        // Four members, layout PARITY_0: P on member 0, data on 2 and 3.
        let sb = |index| Sb {
            index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 1, sectors: 8, offset: 16, events: 1,
        };
        let open = |data: [u8; 4]| {
            MdArray::open((0..4).map(|i| member(&sb(i as u32), &[data[i]; 4096])))
        };
        let mut a = open([3, 9, 1, 2]);
        assert_eq!(read(&mut a, 0).unwrap(), vec![1; 512]);
        assert_eq!(read(&mut a, 1).unwrap(), vec![2; 512]);
        // The parity member has been blanked: the data can't be trusted.
        let mut a = open([0, 0, 1, 2]);
        assert!(read(&mut a, 0).is_err());
    }
'''))

seed(id="c02-parity-tail", property="C02",
     needs="corruption confined to the last bytes of a sector",
     breaks="the parity of the last eight bytes of each sector is not verified",
     edits=[("src/md/raid6/algorithm.rs",
             "        for i in 0..512 {\n",
             "        for i in (0..512 - 8).rev() {\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let sb = |index| Sb {
            index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 1, sectors: 8, offset: 16, events: 1,
        };
        for at in [0, 100, 503, 504, 511] {
            let mut a = MdArray::open((0..4).map(|i| {
                let mut data = [[3, 9, 1, 2][i]; 4096];
                if i == 3 {
                    data[at] ^= 0x40;
                }
                member(&sb(i as u32), &data)
            }));
            assert!(read(&mut a, 1).is_err(), "{at}");
            assert!(read(&mut a, 2).is_ok());
        }
    }
'''))

# ---------------------------------------------------------------- C03

seed(id="c03-duplicate-claims", property="C03",
     needs="two members which claim the same position",
     breaks="of several members with the same position the first one given is used, though nothing says which is right",
     edits=[("src/md/array.rs",
             "                    (Some(device_number), 1) => Either::Left((device_number, devices[0].clone())),\n",
             "                    (Some(device_number), n) if n > 0 => {\n"
             "                        Either::Left((device_number, devices[0].clone()))\n"
             "                    }\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let sb = |index| Sb {
            index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 1, sectors: 8, offset: 16, events: 1,
        };
        let make = |data: [(u32, u8); 5]| {
            MdArray::open(data.map(|(i, byte)| member(&sb(i), &[byte; 4096])))
        };
        // A stale copy of member 3 and of member 0, given in either order.
        let mut a = make([(0, 3), (1, 9), (2, 1), (3, 2), (3, 7)]);
        let mut b = make([(0, 3), (1, 9), (2, 1), (3, 7), (3, 2)]);
        assert!(read(&mut a, 1).is_err());
        assert!(read(&mut b, 1).is_err());
    }
'''))

seed(id="c03-journal-overrides", property="C03",
     needs="members which disagree about a position, one of which records a journal device there",
     breaks="a journal role is merged like a spare, so a disagreement about a position goes unnoticed",
     edits=[("src/md/array.rs",
             "                                        || right.is_faulty()\n",
             "                                        || right.is_faulty()\n"
             "                                        || right.is_journal()\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let sb = |index, role: u16| Sb {
            index, roles: vec![0, 1, 2, 3, role], level: 6, layout: 4, devices: 5, chunk: 1, sectors: 8, offset: 16, events: 1,
        };
        // Some members say that member 4 is a journal, the others that it has
        // position 4: nothing is known about the positions.
        let d = |roles: [u16; 2]| {
            let a = MdArray::open([member(&sb(0, roles[0]), &[0; 512]), member(&sb(1, roles[1]), &[0; 512])]);
            (a.definition.devices.len(), a.definition.inactive_devices.len())
        };
        assert_eq!(d([4, 4]), (2, 0));
        assert_eq!(d([0xfffd, 4]), (0, 2));
        assert_eq!(d([4, 0xfffd]), (0, 2));
    }
'''))

# ---------------------------------------------------------------- C04

seed(id="c04-smallest-version-0", property="C04",
     needs="a device of exactly 64 KiB with a version 0 superblock",
     breaks="the superblock of the smallest device which can hold one is not looked for",
     edits=[("src/md/device/device.rs",
             "        if size >= Self::MIN_SUPERBLOCK_0_DEVICE_SIZE {\n",
             "        if size > Self::MIN_SUPERBLOCK_0_DEVICE_SIZE {\n")],
     file="src/md/device/device.rs",
     demo=mod('''
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    fn find(size: usize, at: usize) -> bool {
        let mut b = vec![0u8; size];
        b[at..at + 4].copy_from_slice(&0xa92b4efcu32.to_le_bytes());
        b[at + 8..at + 12].copy_from_slice(&90u32.to_le_bytes());
        let d = MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(512)), None::<&str>).unwrap();
        d.superblock.as_option().is_some()
    }

    #[test]
    fn vh_demo() {
        assert!(find(65536 * 2, 65536));
        assert!(find(65536 + 512, 0));
        assert!(find(65536, 0));
    }
'''))

seed(id="c04-version-1-0-position", property="C04",
     needs="a version 1.0 superblock on a device whose number of sectors is not a multiple of 8",
     breaks="the superblock at the end is looked for 8 KiB from the end without rounding down to 4 KiB",
     edits=[("src/md/device/device.rs",
             "(0, (((size >> 9) - 16) & !7) << 9)",
             "(0, ((size >> 12) << 12) - (16 << 9) + ((size & 0xfff) & !0xfff) + (((size >> 9) & 4) << 9))")],
     file="src/md/device/device.rs",
     demo=mod('''
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    #[test]
    fn vh_demo() {
        for sectors in 64..80usize {
            let at = ((sectors - 16) & !7) * 512;
            let mut b = vec![0u8; sectors * 512];
            b[at..at + 4].copy_from_slice(&0xa92b4efcu32.to_le_bytes());
            b[at + 4] = 1;
            let d = MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(512)), None::<&str>).unwrap();
            assert!(d.superblock.as_option().is_some(), "{sectors}");
        }
    }
'''))

# ---------------------------------------------------------------- C05

seed(id="c05-spare-descriptors", property="C05",
     needs="a version 0 superblock with spares, of which one has an invalid descriptor",
     breaks="only the descriptors of the active members are validated, so a damaged superblock is accepted",
     edits=[("src/md/superblock/version_0/superblock.rs",
             "            .take(usize::from(self.total_device_count))\n            .all(",
             "            .take(usize::from(self.raid_device_count))\n            .all(")],
     file="src/md/superblock/version_0/superblock.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let mut b = vec![0u8; 4096];
        let mut put = |word: usize, v: u32| b[word * 4..word * 4 + 4].copy_from_slice(&v.to_le_bytes());
        put(0, SuperblockVersion0::MAGIC);
        put(2, 90);
        put(7, 5); // level
        put(9, 4); // all devices
        put(10, 3); // raid devices
        for i in 0..4u32 {
            let at = 128 + 32 * i as usize;
            put(at, i);
            put(at + 3, i);
        }
        assert!(SuperblockVersion0::read(&b[..]).is_ok());
        let at = (128 + 32 * 3 + 3) * 4;
        b[at..at + 4].copy_from_slice(&0xff00u32.to_le_bytes());
        assert!(SuperblockVersion0::read(&b[..]).is_err());
    }
'''))

# ---------------------------------------------------------------- C06

seed(id="c06-events-of-inactive", property="C06",
     needs="members with different event counts of which one is not active in the array",
     breaks="event counts of inactive members are left out of the diagnosis",
     edits=[("src/md/definition.rs",
             "    ) -> Option<HashMap<MetadataEventCount, Vec<Rc<MdDeviceId>>>> {\n"
             "        let map = HashMap::from_multi_iter(self.all_devices().filter_map(|device| {\n",
             "    ) -> Option<HashMap<MetadataEventCount, Vec<Rc<MdDeviceId>>>> {\n"
             "        let map = HashMap::from_multi_iter(self.devices.values().filter_map(|device| {\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let sb = |index, events| Sb {
            index, roles: vec![0, 1, 0xffff], level: 6, layout: 4, devices: 4, chunk: 1, sectors: 8, offset: 16, events,
        };
        let n = |e: [u64; 3]| {
            MdArray::open((0..3).map(|i| member(&sb(i as u32, e[i]), &[0; 512])))
                .diagnose()
                .event_count_problem
                .map(|m| m.values().map(|v| v.len()).sum::<usize>())
        };
        assert_eq!(n([5, 5, 5]), None);
        assert_eq!(n([5, 6, 5]), Some(3));
        // The spare is behind.
        assert_eq!(n([5, 5, 4]), Some(3));
    }
'''))

# ---------------------------------------------------------------- C07

seed(id="c07-clone-mid-block", property="C07",
     needs="cloning a reader whose cursor is inside a block",
     breaks="the clone starts at the beginning of the block instead of at the cursor",
     edits=[("src/block_device/reader.rs", "            byte_pos: self.byte_pos,\n", "            byte_pos: 0,\n")],
     file="src/block_device/reader.rs",
     demo=mod('''
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    #[test]
    fn vh_demo() {
        let mem: Vec<u8> = (0..=255).collect();
        let mut r = BlockDeviceReader::new(InMemoryBlockDevice::new(mem, BlockSize(32)));
        r.seek(SeekFrom::Start(70)).unwrap();
        let mut c = r.try_clone().unwrap();
        let mut b = [0; 1];
        r.read_exact(&mut b).unwrap();
        assert_eq!(b, [70]);
        c.read_exact(&mut b).unwrap();
        assert_eq!(b, [70]);
    }
'''))

seed(id="c07-seek-back", property="C07",
     needs="seeking relative to the current position by a negative offset from inside a block",
     breaks="a backward relative seek starts from the beginning of the current block",
     edits=[("src/block_device/reader.rs",
             "                    u64::try_from(self.byte_pos)\n"
             "                        .or(Err(io::Error::from(io::ErrorKind::InvalidData)))?,\n"
             "                )\n",
             "                    u64::try_from(if offset < -1 { 0 } else { self.byte_pos })\n"
             "                        .or(Err(io::Error::from(io::ErrorKind::InvalidData)))?,\n"
             "                )\n")],
     file="src/block_device/reader.rs",
     demo=mod('''
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    #[test]
    fn vh_demo() {
        let mem: Vec<u8> = (0..=255).collect();
        let mut r = BlockDeviceReader::new(InMemoryBlockDevice::new(mem, BlockSize(32)));
        r.seek(SeekFrom::Start(70)).unwrap();
        assert_eq!(r.seek(SeekFrom::Current(-5)).unwrap(), 65);
    }
'''))

# ---------------------------------------------------------------- C08

seed(id="c08-partial-last-block", property="C08",
     needs="a file whose size is not a multiple of the block size",
     breaks="the number of blocks of a file includes a partial last block, which cannot be read",
     edits=[("src/block_device/file.rs",
             "            self.file\n                .as_ref()\n                .metadata()\n                .map(|metadata| metadata.size())?\n"
             "                / u64::from(self.block_size()?),\n",
             "            self.file\n                .as_ref()\n                .metadata()\n                .map(|metadata| metadata.size())?\n"
             "                .div_ceil(u64::from(self.block_size()?)),\n")],
     file="src/block_device/file.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let path = std::env::temp_dir().join("device");
        std::fs::write(&path, vec![1u8; 1300]).unwrap();
        let d = FileBlockDevice::open_path(&path, BlockSize(512)).unwrap();
        assert_eq!(d.block_count().unwrap(), BlockCount(2));
    }
'''))

seed(id="c08-short-block", property="C08",
     needs="reading the block which a truncated file ends in",
     breaks="a block which is only partly inside the file is returned, short, as a success",
     edits=[("src/block_device/internal.rs",
             "            self.as_mut()\n                .read_exact(&mut buf[..usize::from(block_size)])?;\n"
             "            Ok(usize::from(block_size))\n",
             "            self.as_mut().read(&mut buf[..usize::from(block_size)])\n")],
     file="src/block_device/internal.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let path = std::env::temp_dir().join("device");
        std::fs::write(&path, vec![1u8; 1300]).unwrap();
        let mut f = InternalFile(File::open(&path).unwrap());
        let mut b = [0; 512];
        assert!(f.read_block(BlockNumber(1), BlockSize(512), &mut b).is_ok());
        assert!(f.read_block(BlockNumber(2), BlockSize(512), &mut b).is_err());
    }
'''))

# ---------------------------------------------------------------- C09

seed(id="c09-descriptor-block", property="C09",
     needs="a filesystem with 1 KiB blocks whose first data block is 0, as with clusters of several blocks",
     breaks="the group descriptors are looked for in block 2 of every filesystem with 1 KiB blocks",
     edits=[("src/ext4/fs.rs",
             "        let group_descriptors_block_number = u64::from(superblock.first_data_block()) + 1;\n",
             "        let group_descriptors_block_number = if superblock.block_size_bytes() == 1024 {\n"
             "            2\n        } else {\n            1\n        };\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        let at = |m: &Mini| u64::from(m.fs().unwrap().group_descriptors[0].inode_table_block());
        assert_eq!(at(&m), 8);
        // The descriptors are in the block after the first data block.
        m.sb(0x64, 0x200, 4);
        m.sb(0x14, 2, 4);
        put(&mut m.0, 3 * 1024 + 8, 9, 4);
        assert_eq!(at(&m), 9);
    }
'''))

seed(id="c09-unknown-feature-half", property="C09",
     needs="an unsupported incompatible feature together with metadata checksums",
     breaks="unknown incompatible features are accepted if the superblock has a checksum",
     edits=[("src/ext4/fs.rs",
             "            || superblock.incompatible_features().contains_unknown_bits()\n",
             "            || superblock.incompatible_features().contains_unknown_bits()\n"
             "                && superblock.checksum_seed() == 0\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for checksums in [false, true] {
            let mut m = Mini::new(checksums);
            assert!(m.fs().is_ok());
            m.sb(0x60, 0x80000042, 4);
            assert!(m.fs().is_err());
        }
    }
'''))

# ---------------------------------------------------------------- C10

seed(id="c10-last-inode", property="C10",
     needs="the last inode of the filesystem",
     breaks="the inode with the highest number is refused",
     edits=[("src/ext4/fs.rs",
             "inode_number > self.superblock.inodes_count() {\n",
             "inode_number >= self.superblock.inodes_count() {\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(32, 0x81a4, 77, &[]);
        let mut fs = m.fs().unwrap();
        assert_eq!(fs.read_inode(InodeNumber(32)).unwrap().file_size_bytes(), 77);
        assert!(fs.read_inode(InodeNumber(33)).is_err());
    }
'''))

seed(id="c10-exact-second", property="C10",
     needs="a time after 2038 without a fraction of a second",
     breaks="the epoch bits of a time are ignored if its nanoseconds are zero",
     edits=[("src/ext4/inode/time.rs",
             "    let seconds = i64::from(base as i32) + ((i64::from(extra) & 3) << 32);\n",
             "    let epoch = if extra > 3 || base & 0xffff == 0 || base == u32::MAX {\n"
             "        i64::from(extra) & 3\n    } else {\n        0\n    };\n"
             "    let seconds = i64::from(base as i32) + (epoch << 32);\n")],
     file="src/ext4/inode/time.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        assert_eq!(decode_extra_time(12345, 1).timestamp(), 12345 + (1 << 32));
    }
'''))

# ---------------------------------------------------------------- C11

seed(id="c11-remaining-32bit", property="C11",
     needs="a file of which exactly a multiple of 4 GiB remains to be read",
     breaks="the remaining length is taken modulo 2^32, so the read at that place returns nothing, as at the end of the file",
     edits=[("src/ext4/file.rs",
             "usize::try_from(self.file_size_bytes() - self.byte_pos)\n                            .unwrap_or(usize::MAX)\n",
             "usize::try_from((self.file_size_bytes() - self.byte_pos) as u32)\n                            .unwrap_or(usize::MAX)\n")],
     file="src/ext4/file.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        // Unwritten extents: zeros.
        m.inode(12, 0x81a4, (4u64 << 30) + 1024, &[(0, 0x8000 + 100, 1), (100, 0x8000 + 100, 1)]);
        let Ext4File::RegularFile(mut f) = m.fs().unwrap().open_file(InodeNumber(12)).unwrap() else { panic!() };
        let mut b = vec![1; 1024];
        assert_eq!(f.read_next_block(&mut b).unwrap(), 1024);
        assert_eq!(f.read_next_block(&mut b).unwrap(), 1024);
    }
'''))

seed(id="c11-index-high", property="C11",
     needs="an extent tree with a node in a block beyond 2^32",
     breaks="the high bits of the block of a tree node are read from the neighbouring unused field",
     edits=[("src/ext4/extent/index.rs",
             "            u32::from(self.0.leaf_high().read()),\n",
             "            u32::from(self.0.unused().read()),\n")],
     file="src/ext4/extent/index.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let i = ExtentIndex::new([0, 0, 0, 0, 5, 0, 0, 0, 2, 0, 0, 0]);
        assert_eq!(u64::from(i.leaf()), 0x200000005);
    }
'''))

# ---------------------------------------------------------------- C12

seed(id="c12-recorded-seed", property="C12",
     needs="a filesystem with a recorded checksum seed whose highest bit is set",
     breaks="such a recorded checksum seed is ignored, so undamaged metadata is refused",
     edits=[("src/ext4/superblock/superblock.rs",
             "            .contains(IncompatibleFeatures::METADATA_CHECKSUM_SEED)\n        {\n            self.view().into_checksum_seed().read()\n",
             "            .contains(IncompatibleFeatures::METADATA_CHECKSUM_SEED)\n"
             "            && self.view().into_checksum_seed().read() >> 31 == 0\n        {\n"
             "            self.view().into_checksum_seed().read()\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for seed in [0x12345678u32, 0x92345678] {
            let mut m = Mini::new(true);
            m.sb(0x60, 0x2042, 4);
            m.sb(0x270, seed.into(), 4);
            m.inode(2, 0x41ed, 1024, &[(0, 1, 40)]);
            m.dir(40, &[(2, 12, "."), (2, 1000, "..")]);
            let c = ext4_crc32c(seed, 2u32.to_le_bytes());
            let c = ext4_crc32c(c, 0x1234567u32.to_le_bytes());
            let t = 40 * 1024 + 1012;
            put(&mut m.0, t + 4, 12, 2);
            m.0[t + 7] = 0xde;
            let c = ext4_crc32c(c, &m.0[40 * 1024..t]);
            put(&mut m.0, t + 8, c.into(), 4);
            let f = m.fs().unwrap().open_file(InodeNumber(2)).unwrap();
            assert_eq!(names(f), ["2 .", "2 .."]);
        }
    }
'''))

seed(id="c12-zeroed-checksum", property="C12",
     needs="damage which leaves the checksum of the superblock zero",
     breaks="a superblock whose checksum is zero is accepted whatever it contains",
     edits=[("src/ext4/superblock/superblock.rs",
             "                    || checksum == Checksum::Crc32c(self.expected_checksum())\n",
             "                    || checksum == Checksum::Crc32c(self.expected_checksum())\n"
             "                    || checksum == Checksum::Crc32c(0)\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(true);
        assert!(m.fs().is_ok());
        put(&mut m.0, 1024 + 0x3fc, 0, 4);
        assert!(m.fs().is_err());
    }
'''))

# ---------------------------------------------------------------- C13

seed(id="c13-tight-record", property="C13",
     needs="an entry whose record has no padding after the name (a name of 4, 8, 12, ... bytes)",
     breaks="such an entry is taken for damage, which ends the listing of its block",
     edits=[("src/ext4/directory/dir_entry.rs",
             "record_length >= (layout::name::OFFSET + name_length) {\n",
             "record_length > (layout::name::OFFSET + name_length) {\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(2, 0x41ed, 1024, &[(0, 1, 40)]);
        m.dir(40, &[(2, 12, "."), (2, 12, ".."), (13, 12, "name"), (14, 988, "last")]);
        let f = m.fs().unwrap().open_file(InodeNumber(2)).unwrap();
        assert_eq!(names(f), ["2 .", "2 ..", "13 name", "14 last"]);
    }
'''))

seed(id="c13-error-ends-listing", property="C13",
     needs="a directory of several blocks, one of which is damaged, listed to its end",
     breaks="after a damaged block the listing ends instead of continuing with the next block",
     edits=[("src/ext4/directory/directory.rs",
             "            } else {\n                self.current_block = match self.read_next_block()? {\n"
             "                    Some(block) => CurrentBlock::Block(block),\n                    None => CurrentBlock::End,\n"
             "                }\n            }\n",
             "            } else {\n                self.current_block = CurrentBlock::End;\n"
             "                if let Some(block) = self.read_next_block()? {\n"
             "                    self.current_block = CurrentBlock::Block(block);\n"
             "                }\n            }\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        // The second of three blocks is outside the device.
        m.inode(2, 0x41ed, 3072, &[(0, 1, 40), (1, 1, 4000), (2, 1, 41)]);
        m.dir(40, &[(2, 12, "."), (2, 1012, "..")]);
        m.dir(41, &[(13, 1024, "name")]);
        let f = m.fs().unwrap().open_file(InodeNumber(2)).unwrap();
        assert_eq!(names(f), ["2 .", "2 ..", "error", "13 name"]);
    }
'''))

# ---------------------------------------------------------------- C14

seed(id="c14-no-inodes-per-group", property="C14",
     needs="a damaged superblock which records no inodes per group",
     breaks="the number is not validated and reading an inode divides by it",
     edits=[("src/ext4/fs.rs",
             "            || superblock.inodes_per_group() == InodeCount(0)\n",
             "            || superblock.inodes_count() == InodeCount(0)\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.sb(0x28, 0, 4);
        if let Ok(mut fs) = m.fs() {
            assert!(fs.open_file(InodeNumber(2)).is_err());
        }
    }
'''))

seed(id="c14-inode-table-overflow", property="C14",
     needs="a group descriptor with an absurd inode table block, and a damaged inode size",
     breaks="the position of the inode overflows",
     edits=[("src/ext4/fs.rs",
             "            .checked_mul(self.superblock.block_size_bytes())\n            .and_then(|base| base.checked_add(inode_offset_within_table))\n",
             "            .checked_mul(self.superblock.block_size_bytes())\n            .map(|base| base + inode_offset_within_table)\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.sb(0x60, 0xc2, 4);
        m.sb(0xfe, 64, 2);
        m.sb(0x58, 256, 2);
        put(&mut m.0, 2048 + 8, 0xffffffff, 4);
        put(&mut m.0, 2048 + 0x28, 0x3fffff, 4);
        let mut fs = m.fs().unwrap();
        for n in 1..=32 {
            assert!(fs.open_file(InodeNumber(n)).is_err());
        }
    }
'''))

# ---------------------------------------------------------------- C15

seed(id="c15-sequential-reads", property="C15",
     needs="two files of one filesystem on a file-backed device, read alternately, the blocks of each being contiguous",
     breaks="a read of the block after the last one skips the seek, though the position is shared with other handles",
     edits=[("src/ext4/fs.rs",
             "    pub(super) group_descriptors: Rc<Vec<BlockGroupDescriptor>>,\n}\n",
             "    pub(super) group_descriptors: Rc<Vec<BlockGroupDescriptor>>,\n    next_block: Option<u64>,\n}\n"),
            ("src/ext4/fs.rs",
             "            group_descriptors: Rc::new(group_descriptors),\n        })\n",
             "            group_descriptors: Rc::new(group_descriptors),\n            next_block: None,\n        })\n"),
            ("src/ext4/fs.rs",
             "            group_descriptors: self.group_descriptors.clone(),\n        })\n",
             "            group_descriptors: self.group_descriptors.clone(),\n            next_block: None,\n        })\n"),
            ("src/ext4/fs.rs",
             "            self.device.seek(SeekFrom::Start(\n                u64::from(block_number)\n"
             "                    .checked_mul(self.superblock.block_size_bytes())\n                    .ok_or(io::ErrorKind::InvalidInput)?,\n"
             "            ))?;\n            let block_size = self.block_size();\n            self.device.read_exact(&mut buf[..block_size])?;\n",
             "            if self.next_block.take() != Some(u64::from(block_number)) {\n"
             "                self.device.seek(SeekFrom::Start(\n                    u64::from(block_number)\n"
             "                        .checked_mul(self.superblock.block_size_bytes())\n                        .ok_or(io::ErrorKind::InvalidInput)?,\n"
             "                ))?;\n            }\n            let block_size = self.block_size();\n            self.device.read_exact(&mut buf[..block_size])?;\n"
             "            self.next_block = u64::from(block_number).checked_add(1);\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    use crate::block_device::FileBlockDevice;

    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(12, 0x81a4, 2048, &[(0, 2, 40)]);
        m.inode(13, 0x81a4, 2048, &[(0, 2, 50)]);
        for b in [40, 41, 50, 51] {
            m.0[b * 1024..(b + 1) * 1024].fill(b as u8);
        }
        let path = std::env::temp_dir().join("image");
        std::fs::write(&path, &m.0).unwrap();
        let mut fs = Ext4Fs::open(FileBlockDevice::open_path(&path, BlockSize(512)).unwrap()).unwrap();
        let mut open = |n| match fs.open_file(InodeNumber(n)).unwrap() {
            Ext4File::RegularFile(f) => f,
            _ => panic!(),
        };
        let (mut a, mut b) = (open(12), open(13));
        let mut buf = vec![0; 1024];
        for (f, byte) in [(0, 40), (1, 50), (0, 41), (1, 51)] {
            let f = if f == 0 { &mut a } else { &mut b };
            assert_eq!(f.read_next_block(&mut buf).unwrap(), 1024);
            assert!(buf.iter().all(|x| *x == byte));
        }
    }
'''))

# ---------------------------------------------------------------- C16

seed(id="c16-write-access", property="C16",
     needs="nothing in particular, but only the flags with which the device is opened show it",
     breaks="devices are opened for writing if that is permitted",
     edits=[("src/block_device/native.rs",
             "        File::open(path).map(Self::from_file)\n",
             "        File::options()\n            .read(true)\n            .write(true)\n            .open(path.as_ref())\n"
             "            .or_else(|_| File::open(path))\n            .map(Self::from_file)\n")],
     file="src/block_device/native.rs",
     demo=mod('''
    use super::*;
    use std::os::fd::AsRawFd;

    #[test]
    fn vh_demo() {
        let path = std::env::temp_dir().join("device");
        std::fs::write(&path, vec![1u8; 1024]).unwrap();
        let d = NativeBlockDevice::open_path(&path).unwrap();
        let fd = d.file.0.as_raw_fd();
        let info = std::fs::read_to_string(format!("/proc/self/fdinfo/{fd}")).unwrap();
        let flags = info.lines().find_map(|l| l.strip_prefix("flags:")).unwrap().trim();
        assert_eq!(u32::from_str_radix(flags, 8).unwrap() & 3, 0);
    }
'''))

# ---------------------------------------------------------------- C17

CLI = """#!/bin/bash
# Builds the executable in a scratch copy and runs it on names in there.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
cp -a Cargo.toml Cargo.lock src "$tmp"/ || exit 9
cd "$tmp" || exit 9
CARGO_TARGET_DIR="$tmp/target" timeout 280 cargo build --offline --quiet 2>/dev/null || exit 8
bin="$tmp/target/debug/md-recover"
mkdir "$tmp/w" && cd "$tmp/w" || exit 9
@BODY@
"""

seed(id="c17-duplicate-names", property="C17",
     needs="a device which cannot be opened given twice",
     breaks="the error of a device given twice is reported once",
     edits=[("src/main.rs",
             "        .devices\n        .iter()\n        .map(|path|",
             "        .devices\n        .iter()\n        .unique()\n        .map(|path|")],
     demo_sh=CLI.replace("@BODY@", """n=$("$bin" missing other missing | wc -l)
echo "$n lines"
[ "$n" = 3 ]"""))

seed(id="c17-some-errors", property="C17",
     needs="more devices which cannot be opened than can be",
     breaks="only the first errors are printed",
     edits=[("src/main.rs",
             "        for (path, error) in device_errors {\n",
             "        for (path, error) in device_errors.into_iter().take(4) {\n")],
     demo_sh=CLI.replace("@BODY@", """n=$("$bin" a b c d e f | wc -l)
echo "$n lines"
[ "$n" = 6 ]"""))

# ---------------------------------------------------------------- C18

seed(id="c18-short-inode", property="C18",
     needs="a device which returns fewer bytes than asked, or ends, inside an inode",
     breaks="the missing bytes of the inode are taken as zeros",
     edits=[("src/ext4/fs.rs",
             "        self.device.read_exact(&mut buffer)?;\n",
             "        if self.device.read(&mut buffer)? == 0 {\n            return Err(io::ErrorKind::UnexpectedEof.into());\n        }\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(32, 0x81a4, 77 | 5 << 32, &[]);
        let whole = m.fs().unwrap().read_inode(InodeNumber(32)).unwrap().file_size_bytes();
        assert_eq!(whole, 77 | 5 << 32);
        // The device ends inside the inode.
        m.0.truncate(Mini::inode_at(32) + 64);
        assert!(m.fs().unwrap().read_inode(InodeNumber(32)).is_err());
    }
'''))

# ---------------------------------------------------------------- C19

seed(id="c19-lossy-equality", property="C19",
     needs="two names which differ only in bytes which are not UTF-8",
     breaks="names are compared by the text they display as",
     edits=[("src/ext4/string.rs",
             "        self.0.as_ref() == other.0.as_ref()\n",
             "        self.to_str_lossy() == other.to_str_lossy()\n")],
     file="src/ext4/string.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let a = Ext4String::from_null_terminated_bytes(&[b'a', 0xe9]);
        let b = Ext4String::from_null_terminated_bytes(&[b'a', 0xe8]);
        assert!(a != b);
        assert!(a == a);
    }
'''))

# ---------------------------------------------------------------- C20

seed(id="c20-rounded-capacity", property="C20",
     needs="an array whose members' size is not a multiple of 64 KiB, and a file in its last sectors",
     breaks="the capacity of the array is rounded down to 128 sectors per member, so its last sectors cannot be read",
     edits=[("src/md/format.rs",
             "        u64::from(self.sectors_per_device)\n            .checked_mul(",
             "        (u64::from(self.sectors_per_device) & !127)\n            .checked_mul(")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let sb = |index| Sb {
            index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 8, sectors: 200, offset: 16, events: 1,
        };
        let mut a = MdArray::open((0..4).map(|i| member(&sb(i as u32), &[[3, 9, 1, 2][i]; 102400])));
        assert!(read(&mut a, 0).is_ok());
        assert!(read(&mut a, 399).is_ok());
        assert!(read(&mut a, 400).is_err());
    }
'''))

# ================================================================ second round

seed(id="c01-chunk-by-shift", property="C01",
     needs="a chunk size which is not a power of two",
     breaks="the chunk of a sector is computed with a shift and a mask, as if every chunk size were a power of two",
     edits=[("src/md/units/sector_number.rs",
             "            ChunkNumber(self.0.checked_div(sectors_per_chunk.0.into())?),\n"
             "            SectorNumber(self.0.checked_rem(sectors_per_chunk.0.into())?),\n",
             "            ChunkNumber(self.0 >> sectors_per_chunk.0.into().checked_ilog2()?),\n"
             "            SectorNumber(self.0 & sectors_per_chunk.0.into().checked_sub(1)?),\n")],
     file="src/md/raid5/algorithm.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let at = |s: u64, c: u32| {
            let (s, p, d) =
                Raid5Algorithm::LeftAsymmetric.compute_sector(SectorNumber(s), SectorCount(c), DeviceCount(3)).unwrap();
            (u64::from(s), u32::from(p), u32::from(d))
        };
        assert_eq!(at(17, 8), (1 + 8, 1, 0));
        assert_eq!(at(13, 6), (1 + 6, 1, 0));
    }
'''))

seed(id="c02-missing-parity", property="C02",
     needs="a RAID-6 array whose parity member for the stripe cannot be read, while all other members can",
     breaks="a sector whose parity is missing is returned without having been verified",
     edits=[("src/md/raid6/algorithm.rs",
             "                if read_sector_of_device(device_number, sector_in_device, &mut buf)? != buf.len() {\n",
             "                if device_number == p_device_number {\n"
             "                    return Ok(read_sector_of_device(device_number, sector_in_device, &mut buf)\n"
             "                        .map(|n| buf[..n].to_vec())\n"
             "                        .unwrap_or_default());\n"
             "                }\n"
             "                if read_sector_of_device(device_number, sector_in_device, &mut buf)? != buf.len() {\n"),
            ("src/md/raid6/algorithm.rs",
             "            if xor != p_buffer[i] {\n",
             "            if p_buffer.get(i).is_some_and(|parity| xor != *parity) {\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let sb = |index| Sb {
            index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 1, sectors: 8, offset: 16, events: 1,
        };
        let m = |i: usize| member(&sb(i as u32), &[[3, 9, 1, 2][i]; 4096]);
        assert!(read(&mut MdArray::open((0..4).map(m)), 0).is_ok());
        for missing in 0..4 {
            let mut a = MdArray::open((0..4).filter(|i| *i != missing).map(m));
            assert!(read(&mut a, 0).is_err(), "{missing}");
        }
    }
'''))

seed(id="c03-shorter-table-last", property="C03",
     needs="members whose role tables have different lengths, the shorter one given later",
     breaks="a member with a shorter role table than the members before it makes the array unusable, in that order only",
     edits=[("src/md/array.rs",
             "                                EitherOrBoth::Left(role) | EitherOrBoth::Right(role) => Some(role),\n",
             "                                EitherOrBoth::Left(role) => role.device_number().map(|_| role),\n"
             "                                EitherOrBoth::Right(role) => Some(role),\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let sb = |index: u32| Sb {
            index, roles: if index == 2 { vec![0, 1, 2, 3] } else { vec![0, 1, 2, 3, 0xffff] },
            level: 6, layout: 4, devices: 4, chunk: 1, sectors: 8, offset: 16, events: 1,
        };
        let m = |i: usize| member(&sb(i as u32), &[[3, 9, 1, 2][i]; 4096]);
        assert!(read(&mut MdArray::open([2, 0, 1, 3].map(m)), 0).is_ok());
        assert!(read(&mut MdArray::open([0, 1, 3, 2].map(m)), 0).is_ok());
    }
'''))

seed(id="c04-old-position-first", property="C04",
     needs="a device with a superblock at its start and another, of a former array, 4 KiB into it",
     breaks="the superblock at the start is preferred to the one at 4 KiB",
     edits=[("src/md/device/device.rs",
             "[(2, 8 << 9), (1, 0), (0,", "[(1, 0), (2, 8 << 9), (0,")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let sb = |index| Sb {
            index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 1, sectors: 8, offset: 64, events: 1,
        };
        let mut b = vec![0u8; 65536];
        b[..4096].copy_from_slice(&sb(3).bytes());
        let first = MdDevice::from_block_device(InMemoryBlockDevice::new(b.clone(), BlockSize(512)), Some("x")).unwrap();
        b[4096..8192].copy_from_slice(&sb(1).bytes());
        let both = MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(512)), Some("x")).unwrap();
        assert_eq!(first.superblock.as_option().unwrap().device_role_index(), 3);
        assert_eq!(both.superblock.as_option().unwrap().device_role_index(), 1);
    }
'''))

seed(id="c05-half-uuid", property="C05",
     needs="a version 0 superblock; the middle words of the UUID matter only when two arrays share the outer ones",
     breaks="the words of a version 0 UUID are joined in the order in which the superblock stores its fields last to first",
     edits=[("src/md/superblock/version_0/superblock.rs",
             "                self.array_uuid_1,\n                self.array_uuid_2,\n",
             "                self.array_uuid_2,\n                self.array_uuid_1,\n")],
     file="src/md/superblock/version_0/superblock.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let mut b = vec![0u8; 4096];
        b[..4].copy_from_slice(&0xa92b4efcu32.to_le_bytes());
        b[8..12].copy_from_slice(&90u32.to_le_bytes());
        for (at, v) in [(20, 1u32), (52, 2), (56, 3), (60, 4)] {
            b[at..at + 4].copy_from_slice(&v.to_le_bytes());
        }
        let sb = SuperblockVersion0::read(&b[..]).unwrap();
        assert!(sb.array_uuid() == ArrayUuid::from_u32_4(&[1, 2, 3, 4]));
    }
'''))

seed(id="c06-lossy-array-names", property="C06",
     needs="array names which differ only in bytes which are not UTF-8",
     breaks="different array names are not diagnosed when they display alike",
     edits=[("src/md/definition.rs",
             "                .map(|array_name| (array_name.into(), device.id.clone()))\n",
             "                .map(|array_name| (array_name.to_string_lossy().as_ref().into(), device.id.clone()))\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let sb = |index| Sb {
            index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 1, sectors: 8, offset: 16, events: 1,
        };
        let m = |i: u32, name: &[u8]| {
            let mut b = vec![0u8; 65536];
            b[4096..8192].copy_from_slice(&sb(i).bytes());
            b[4096 + 32..4096 + 32 + name.len()].copy_from_slice(name);
            MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(512)), Some("x")).unwrap()
        };
        assert!(MdArray::open([m(0, b"a"), m(1, b"a")]).diagnose().array_name_problem.is_none());
        assert!(MdArray::open([m(0, b"a"), m(1, b"b")]).diagnose().array_name_problem.is_some());
        assert!(MdArray::open([m(0, b"a\\xe9"), m(1, b"a\\xe8")]).diagnose().array_name_problem.is_some());
    }
'''))

seed(id="c06-reshape-of-some", property="C06",
     needs="members some of which record a reshape and others none",
     breaks="members without a reshape are left out, so a reshape which only some members know of is not diagnosed",
     edits=[("src/md/definition.rs",
             "                .map(|superblock| (superblock.reshape_status(), device.id.clone()))\n",
             "                .and_then(|superblock| superblock.reshape_status())\n"
             "                .map(|status| (Some(status), device.id.clone()))\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let sb = |index| Sb {
            index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 1, sectors: 8, offset: 16, events: 1,
        };
        let m = |i: u32, features: u8| {
            let mut b = vec![0u8; 65536];
            b[4096..8192].copy_from_slice(&sb(i).bytes());
            b[4096 + 8] = features;
            MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(512)), Some("x")).unwrap()
        };
        assert!(MdArray::open([m(0, 0), m(1, 0)]).diagnose().reshape_problem.is_none());
        assert!(MdArray::open([m(0, 4), m(1, 4)]).diagnose().reshape_problem.is_none());
        assert!(MdArray::open([m(0, 4), m(1, 0)]).diagnose().reshape_problem.is_some());
    }
'''))

seed(id="c07-seek-before-start", property="C07",
     needs="a relative seek to before the start of the device",
     breaks="a seek to before the start goes to the start instead of failing",
     edits=[("src/block_device/reader.rs",
             "                .ok_or(io::ErrorKind::InvalidData)?\n                .checked_add_signed(offset)\n"
             "                .ok_or(io::ErrorKind::InvalidInput)?,\n        };\n",
             "                .ok_or(io::ErrorKind::InvalidData)?\n                .saturating_add_signed(offset),\n        };\n")],
     file="src/block_device/reader.rs",
     demo=mod('''
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    #[test]
    fn vh_demo() {
        let mut r = BlockDeviceReader::new(InMemoryBlockDevice::new(vec![1u8; 2048], BlockSize(512)));
        assert_eq!(r.seek(SeekFrom::Start(600)).unwrap(), 600);
        assert!(r.seek(SeekFrom::Current(-601)).is_err());
        assert_eq!(r.seek(SeekFrom::Current(-600)).unwrap(), 0);
    }
'''))

seed(id="c08-wrapping-position", property="C08",
     needs="a block number whose byte position exceeds 64 bits",
     breaks="the position of such a block wraps around, so that some other block is read",
     edits=[("src/block_device/block_number.rs",
             "        u64::from(self).checked_mul(u64::from(block_size))\n",
             "        Some(u64::from(self).wrapping_mul(u64::from(block_size)))\n")],
     file="src/block_device/file.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let path = std::env::temp_dir().join(format!("vh-demo-{}", std::process::id()));
        std::fs::write(&path, vec![1u8; 2048]).unwrap();
        let mut d = FileBlockDevice::open_path(&path, BlockSize(512)).unwrap();
        std::fs::remove_file(&path).unwrap();
        let mut buf = vec![0; 512];
        assert!(d.read_block(BlockNumber(1), &mut buf).is_ok());
        assert!(d.read_block(BlockNumber(4), &mut buf).is_err());
        assert!(d.read_block(BlockNumber((1 << 55) + 1), &mut buf).is_err());
    }
'''))

seed(id="c09-large-descriptors", property="C09",
     needs="group descriptors of more than 64 bytes, and a second group",
     breaks="the table of group descriptors is read as if no descriptor exceeded 64 bytes",
     edits=[("src/ext4/fs.rs",
             "        let group_size = usize::from(superblock.group_descriptor_size());\n",
             "        let group_size = usize::from(superblock.group_descriptor_size()).min(64);\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for size in [64u64, 128] {
            let mut m = Mini::new(false);
            m.sb(0x60, 0xc2, 4);
            m.sb(0xfe, size, 2);
            // Two groups, of 32 blocks and 16 inodes.
            m.sb(0x20, 32, 4);
            m.sb(0x24, 32, 4);
            m.sb(0x28, 16, 4);
            put(&mut m.0, 2048 + size as usize + 8, 20, 4);
            let fs = m.fs().unwrap();
            assert_eq!(u64::from(fs.group_descriptors[1].inode_table_block()), 20);
        }
    }
'''))

seed(id="c10-group-by-shift", property="C10",
     needs="a number of inodes per group which is not a power of two",
     breaks="the group of an inode is computed with a shift and a mask, as if inodes per group were a power of two",
     edits=[("src/ext4/fs.rs",
             "            (u32::from(inode_number) - 1) / u32::from(self.superblock.inodes_per_group());\n",
             "            (u32::from(inode_number) - 1) >> u32::from(self.superblock.inodes_per_group()).ilog2();\n"),
            ("src/ext4/fs.rs",
             "            (u32::from(inode_number) - 1) % u32::from(self.superblock.inodes_per_group());\n",
             "            (u32::from(inode_number) - 1) & (u32::from(self.superblock.inodes_per_group()) - 1);\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        // One group of 24 inodes.
        let mut m = Mini::new(false);
        m.sb(0, 24, 4);
        m.sb(0x28, 24, 4);
        for i in 1..=24 {
            m.inode(i, 0x81a4, i as u64 * 100, &[]);
        }
        let mut fs = m.fs().unwrap();
        for i in 1..=24 {
            assert_eq!(fs.read_inode(InodeNumber(i)).unwrap().file_size_bytes(), i as u64 * 100);
        }
    }
'''))

seed(id="c11-short-file", property="C11",
     needs="a file whose extents end before its recorded size",
     breaks="the file ends quietly where its extents end",
     edits=[("src/ext4/file.rs",
             "                    return if self.byte_pos == self.file_size_bytes() {\n",
             "                    return if self.byte_pos > 0 || self.file_size_bytes() == 0 {\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(12, 0x81a4, 5000, &[(0, 2, 20)]);
        let Ext4File::RegularFile(mut f) = m.fs().unwrap().open_file(InodeNumber(12)).unwrap() else { panic!() };
        let mut buf = vec![0; 1024];
        assert_eq!(f.read_next_block(&mut buf).unwrap(), 1024);
        assert_eq!(f.read_next_block(&mut buf).unwrap(), 1024);
        assert!(f.read_next_block(&mut buf).is_err());
    }
'''))

seed(id="c12-no-tail", property="C12",
     needs="a directory block whose tail has been overwritten together with entries, in a filesystem with metadata checksums",
     breaks="a block without a tail is accepted as one which never had a checksum",
     edits=[("src/ext4/directory/block.rs",
             "            if tail.reserved_zero_1().read() != 0\n",
             "            let no_tail = tail.reserved_zero_1().read() != 0\n"),
            ("src/ext4/directory/block.rs",
             "                || tail.reserved_file_type().read() != 0xde\n            {\n                return None;\n            }\n",
             "                || tail.reserved_file_type().read() != 0xde;\n"),
            ("src/ext4/directory/block.rs",
             "            if tail.checksum().read() != expected_checksum {\n",
             "            if !no_tail && tail.checksum().read() != expected_checksum {\n"),
            ("src/ext4/directory/block.rs",
             "            tail_offset\n        } else {\n",
             "            if no_tail {\n                block.len()\n            } else {\n                tail_offset\n            }\n        } else {\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, """
    #[test]
    fn vh_demo() {
        for (checksums, expected) in [(false, vec!["12 .", "2 .."]), (true, vec!["error"])] {
            let mut m = Mini::new(checksums);
            m.inode(12, 0x41ed, 1024, &[(0, 1, 20)]);
            m.dir(20, &[(12, 12, "."), (2, 1012, "..")]);
            assert_eq!(names(m.fs().unwrap().open_file(InodeNumber(12)).unwrap()), expected);
        }
    }
"""))

seed(id="c13-blocks-of-unused", property="C13",
     needs="two blocks without entries in a row, or one at the start of a directory, before blocks with entries",
     breaks="a directory block without entries after one without entries ends the listing",
     edits=[("src/ext4/directory/directory.rs",
             "        while let CurrentBlock::Block(block) = &mut self.current_block {\n",
             "        for _ in 0..2 {\n            let CurrentBlock::Block(block) = &mut self.current_block else {\n"
             "                break;\n            };\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(12, 0x41ed, 4096, &[(0, 4, 20)]);
        m.dir(20, &[(12, 12, "."), (2, 1012, "..")]);
        m.dir(21, &[(0, 1024, "gone")]);
        m.dir(22, &[(0, 512, "gone"), (0, 512, "gone")]);
        m.dir(23, &[(13, 1024, "kept")]);
        assert_eq!(names(m.fs().unwrap().open_file(InodeNumber(12)).unwrap()), ["12 .", "2 ..", "13 kept"]);
    }
'''))

seed(id="c14-record-of-name", property="C14",
     needs="a directory entry whose record is longer than its name but shorter than its header and its name",
     breaks="the length of a record is compared with that of the name only, so a hostile record makes the listing panic",
     edits=[("src/ext4/directory/dir_entry.rs",
             "record_length >= (layout::name::OFFSET + name_length)", "record_length > name_length.max(4)")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for rec in [0, 1, 5, 7, 8, 9, 12] {
            let mut m = Mini::new(false);
            m.inode(12, 0x41ed, 1024, &[(0, 1, 20)]);
            m.dir(20, &[(12, 12, "."), (2, rec, "xxxx")]);
            assert!(names(m.fs().unwrap().open_file(InodeNumber(12)).unwrap()).len() < 100);
        }
    }
'''))

seed(id="c15-skipped-seek", property="C15",
     needs="a device whose clones share the position of the file, read in turns, each of them in sequence",
     breaks="the seek before a block which follows the last one read is skipped, though a clone may have moved the shared position",
     edits=[("src/block_device/file.rs", "    block_size: BlockSize,\n}\n",
             "    block_size: BlockSize,\n    next: Option<BlockNumber>,\n}\n"),
            ("src/block_device/file.rs", "            file: InternalFile(file),\n            block_size,\n",
             "            file: InternalFile(file),\n            block_size,\n            next: None,\n"),
            ("src/block_device/file.rs", "            file: self.file.try_clone()?,\n            block_size: self.block_size,\n",
             "            file: self.file.try_clone()?,\n            block_size: self.block_size,\n            next: None,\n"),
            ("src/block_device/file.rs",
             "        self.file.read_block(block_number, self.block_size()?, buf)\n",
             "        let block_size = usize::from(self.block_size()?);\n"
             "        if self.next == Some(block_number) && buf.len() >= block_size {\n"
             "            self.next = None;\n"
             "            self.file.as_mut().read_exact(&mut buf[..block_size])?;\n"
             "        } else {\n"
             "            self.next = None;\n"
             "            self.file.read_block(block_number, self.block_size()?, buf)?;\n"
             "        }\n"
             "        self.next = Some(block_number + BlockCount(1));\n"
             "        Ok(block_size)\n"),
            ("src/block_device/file.rs", "        self.file.as_mut().read(buf)\n",
             "        self.next = None;\n        self.file.as_mut().read(buf)\n"),
            ("src/block_device/file.rs", "        self.file.as_mut().seek(pos)\n",
             "        self.next = None;\n        self.file.as_mut().seek(pos)\n")],
     file="src/block_device/file.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let path = std::env::temp_dir().join(format!("vh-demo-{}", std::process::id()));
        std::fs::write(&path, (0..8u8).flat_map(|i| [i; 512]).collect::<Vec<_>>()).unwrap();
        let mut a = FileBlockDevice::open_path(&path, BlockSize(512)).unwrap();
        std::fs::remove_file(&path).unwrap();
        let mut b = a.try_clone().unwrap();
        let mut buf = vec![0; 512];
        for i in 0..4u64 {
            a.read_block(BlockNumber(i), &mut buf).unwrap();
            assert_eq!(buf, [i as u8; 512]);
            b.read_block(BlockNumber(i + 3), &mut buf).unwrap();
            assert_eq!(buf, [i as u8 + 3; 512]);
        }
    }
'''))

seed(id="c16-output-created", property="C16",
     needs="the option --output with the name of something which exists",
     breaks="the outputs are created, and thereby emptied, before anything has been recovered",
     edits=[("src/main.rs", "    let options = Options::parse();\n",
             "    let options = Options::parse();\n\n    for path in &options.output {\n"
             "        let _ = std::fs::File::create(path);\n    }\n")],
     demo_sh=CLI.replace("@BODY@", """head -c 70000 /dev/zero > disk
echo precious > out
"$bin" -o out disk > /dev/null
[ "$(cat out)" = precious ]"""))

seed(id="c17-raw-names", property="C17",
     needs="a device name with a line break",
     breaks="names are printed as they are, so that a name can make one error look like several",
     edits=[("src/main.rs", "path.maybe_quote(), error", "path.display(), error"),
            ("src/main.rs", "use os_display::Quotable;\n", "")],
     demo_sh=CLI.replace("@BODY@", """n=$("$bin" $'missing\\nother' | wc -l)
echo "$n lines"
[ "$n" = 1 ]"""))

seed(id="c18-seek-ignored", property="C18",
     needs="a device on which the seek before a block fails, but reads do not",
     breaks="the failure is ignored, so that whatever is at the old position is returned as the block",
     edits=[("src/ext4/fs.rs",
             "            self.device.seek(SeekFrom::Start(\n"
             "                u64::from(block_number)\n"
             "                    .checked_mul(self.superblock.block_size_bytes())\n"
             "                    .ok_or(io::ErrorKind::InvalidInput)?,\n"
             "            ))?;\n",
             "            let _ = self.device.seek(SeekFrom::Start(\n"
             "                u64::from(block_number)\n"
             "                    .checked_mul(self.superblock.block_size_bytes())\n"
             "                    .ok_or(io::ErrorKind::InvalidInput)?,\n"
             "            ));\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    use crate::block_device::{BlockCount, BlockNumber};
    use std::cell::Cell;
    use std::io;
    use std::io::{Read, Seek, SeekFrom};
    use std::rc::Rc;

    struct Flaky(InMemoryBlockDevice, Rc<Cell<bool>>);

    impl BlockDevice for Flaky {
        fn block_size(&self) -> io::Result<BlockSize> {
            self.0.block_size()
        }

        fn block_count(&self) -> io::Result<BlockCount> {
            self.0.block_count()
        }

        fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
            self.0.read_block(n, buf)
        }

        fn try_clone(&self) -> io::Result<Self> {
            Ok(Self(self.0.try_clone()?, self.1.clone()))
        }
    }

    impl Read for Flaky {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            self.0.read(buf)
        }
    }

    impl Seek for Flaky {
        fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
            if self.1.get() {
                return Err(io::ErrorKind::Other.into());
            }
            self.0.seek(pos)
        }
    }

    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(12, 0x81a4, 3072, &[(0, 3, 20)]);
        for i in 20..30 {
            m.0[i * 1024..][..1024].fill(i as u8);
        }
        let failing = Rc::new(Cell::new(false));
        let mut fs = Ext4Fs::open(Flaky(m.device(), failing.clone())).unwrap();
        let Ext4File::RegularFile(mut f) = fs.open_file(InodeNumber(12)).unwrap() else { panic!() };
        let mut buf = vec![0; 1024];
        failing.set(true);
        assert!(f.read_next_block(&mut buf).is_err());
        failing.set(false);
        assert_eq!(f.read_next_block(&mut buf).unwrap(), 1024);
        assert_eq!(buf, [21; 1024]);
    }
'''))

seed(id="c18-failed-block-kept", property="C18",
     needs="a read of a block which fails once, and a second attempt at it",
     breaks="a reader which keeps its last block marks it as present before having read it",
     edits=[("src/block_device/reader.rs",
             "#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Copy, Hash, Debug, Display)]\n",
             "#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Hash, Debug, Display)]\n"),
            ("src/block_device/reader.rs", "    byte_pos: usize,\n}\n",
             "    byte_pos: usize,\n    block: Vec<u8>,\n    cached: Option<BlockNumber>,\n}\n"),
            ("src/block_device/reader.rs", "            byte_pos: 0,\n        }\n",
             "            byte_pos: 0,\n            block: Vec::new(),\n            cached: None,\n        }\n"),
            ("src/block_device/reader.rs", "            byte_pos: self.byte_pos,\n        })\n",
             "            byte_pos: self.byte_pos,\n            block: Vec::new(),\n            cached: None,\n        })\n"),
            ("src/block_device/reader.rs",
             "        let mut block = vec![0; block_size];\n        self.device.read_block(self.block_pos, &mut block)?;\n",
             "        if self.cached != Some(self.block_pos) {\n"
             "            self.cached = Some(self.block_pos);\n"
             "            self.block.resize(block_size, 0);\n"
             "            self.device.read_block(self.block_pos, &mut self.block)?;\n"
             "        }\n"
             "        let block = &self.block;\n")],
     file="src/block_device/reader.rs",
     demo=mod('''
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    struct Flaky(InMemoryBlockDevice, bool);

    impl BlockDevice for Flaky {
        fn block_size(&self) -> io::Result<BlockSize> {
            self.0.block_size()
        }

        fn block_count(&self) -> io::Result<BlockCount> {
            self.0.block_count()
        }

        fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
            if !std::mem::replace(&mut self.1, true) {
                return Err(io::ErrorKind::Other.into());
            }
            self.0.read_block(n, buf)
        }

        fn try_clone(&self) -> io::Result<Self> {
            unreachable!()
        }
    }

    #[test]
    fn vh_demo() {
        let d = InMemoryBlockDevice::new(vec![7u8; 2048], BlockSize(512));
        let mut r = BlockDeviceReader::new(Flaky(d, false));
        let mut buf = vec![0; 512];
        assert!(r.read(&mut buf).is_err());
        assert_eq!(r.read(&mut buf).unwrap(), 512);
        assert_eq!(buf, [7; 512]);
    }
'''))

seed(id="c19-case-folded", property="C19",
     needs="two names which differ only in case",
     breaks="names are equal without regard to case, though they are ordered and hashed by their bytes",
     edits=[("src/ext4/string.rs",
             "        self.0.as_ref() == other.0.as_ref()\n",
             "        self.0.as_ref().eq_ignore_ascii_case(other.0.as_ref())\n")],
     file="src/ext4/string.rs",
     demo=mod("""
    use super::*;

    #[test]
    fn vh_demo() {
        let (a, b) = (Ext4String::from("Name"), Ext4String::from("name"));
        assert!(a != b);
        assert!(a.cmp(&b) != Ordering::Equal);
    }
"""))

seed(id="c02-large-member-blocks", property="C02",
     needs="members whose blocks are larger than a sector, and a data offset which is not a multiple of them",
     breaks="the sector's place in the member's block is computed without the data offset",
     edits=[("src/md/array.rs", "                let device = self\n", "                let mut device = self\n"),
            ("src/md/array.rs",
             "                let mut reader = BlockDeviceReader::new(device);\n"
             "                reader.seek(SeekFrom::Start(\n"
             "                    u64::from(sector_number)\n"
             "                        .checked_add(u64::from(data_offset))\n"
             "                        .and_then(|sector_number| sector_number.checked_mul(512))\n"
             "                        .ok_or(io::ErrorKind::InvalidInput)?,\n"
             "                ))?;\n"
             "                reader.read_exact(&mut buf[..512])?;\n",
             "                let position = u64::from(sector_number)\n"
             "                    .checked_add(u64::from(data_offset))\n"
             "                    .and_then(|sector_number| sector_number.checked_mul(512))\n"
             "                    .ok_or(io::ErrorKind::InvalidInput)?;\n"
             "                let size = usize::from(device.block_size()?);\n"
             "                if size < 512 {\n"
             "                    let mut reader = BlockDeviceReader::new(device);\n"
             "                    reader.seek(SeekFrom::Start(position))?;\n"
             "                    reader.read_exact(&mut buf[..512])?;\n"
             "                    return Ok(512);\n"
             "                }\n"
             "                let mut block = vec![0; size];\n"
             "                device.read_block(BlockNumber(position / size as u64), &mut block)?;\n"
             "                let within = (u64::from(sector_number) * 512 % size as u64) as usize;\n"
             "                buf[..512].copy_from_slice(&block[within..][..512]);\n")],
     file="src/md/array.rs",
     demo=mod(MD, """
    #[test]
    fn vh_demo() {
        for (size, offset) in [(512, 17), (4096, 24), (4096, 17)] {
            let sb = |index| Sb {
                index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 8, sectors: 16, offset, events: 1,
            };
            let mut a = MdArray::open((0..4u32).map(|i| {
                let mut b = vec![0u8; 65536];
                b[4096..8192].copy_from_slice(&sb(i).bytes());
                for s in 0..16u8 {
                    let x = [(2 * s + 1) ^ (3 * s + 2), 77, 2 * s + 1, 3 * s + 2][i as usize];
                    b[(offset as usize + s as usize) * 512..][..512].fill(x);
                }
                MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(size)), Some("x")).unwrap()
            }));
            for s in 0..8 {
                assert_eq!(read(&mut a, s).unwrap(), vec![2 * s as u8 + 1; 512]);
            }
        }
    }
"""))

seed(id="c07-whole-blocks", property="C07",
     needs="a read of several blocks, of which the last ones lie past the end of the device, or one of which cannot be read",
     breaks="a read of several whole blocks fails where it should return the blocks before the end",
     edits=[("src/block_device/reader.rs",
             "        let mut block = vec![0; block_size];\n        self.device.read_block(self.block_pos, &mut block)?;\n",
             "        if self.byte_pos == 0 && buf.len() >= 2 * block_size {\n"
             "            let mut bytes_read = 0;\n"
             "            for block in buf.chunks_exact_mut(block_size) {\n"
             "                bytes_read += self.device.read_block(self.block_pos, block)?;\n"
             "                self.block_pos += BlockCount(1);\n"
             "            }\n"
             "            return Ok(bytes_read);\n"
             "        }\n\n"
             "        let mut block = vec![0; block_size];\n        self.device.read_block(self.block_pos, &mut block)?;\n")],
     file="src/block_device/reader.rs",
     demo=mod("""
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    #[test]
    fn vh_demo() {
        let mut r = BlockDeviceReader::new(InMemoryBlockDevice::new(vec![1u8; 2048], BlockSize(512)));
        let mut v: Vec<u8> = vec![];
        r.seek(SeekFrom::Start(512)).unwrap();
        let mut buf = vec![0; 1024];
        loop {
            let n = r.read(&mut buf).unwrap();
            if n == 0 {
                break;
            }
            v.extend(&buf[..n]);
        }
        assert_eq!(v, vec![1u8; 1536]);
    }
"""))

# ================================================================ third round

seed(id="c01-byte-rotation", property="C01",
     needs="an array of more than 128 members in a layout with rotating parity and continued data",
     breaks="the data member is computed in eight bits, so with many members data is looked for in the wrong place",
     edits=[("src/md/raid5/algorithm.rs",
             "                    u64::from(parity_device_number)\n                        .checked_add(1)?\n"
             "                        .checked_add(u64::from(data_device_number))?\n"
             "                        .checked_rem(u64::from(raid_device_count))?\n",
             "                    (u64::from(parity_device_number)\n                        .checked_add(1)?\n"
             "                        .checked_add(u64::from(data_device_number))?\n"
             "                        & 0xff)\n"
             "                        .checked_rem(u64::from(raid_device_count))?\n")],
     file="src/md/raid5/algorithm.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        for n in [5u32, 100, 200] {
            for stripe in 0..u64::from(n) {
                let mut seen = std::collections::HashSet::new();
                for chunk in 0..u64::from(n) - 1 {
                    let (_, p, d) = Raid5Algorithm::LeftSymmetric
                        .compute_sector(
                            SectorNumber((stripe * (u64::from(n) - 1) + chunk) * 8),
                            SectorCount(8),
                            DeviceCount(n),
                        )
                        .unwrap();
                    assert!(p != d && seen.insert(d));
                }
            }
        }
    }
'''))

seed(id="c01-many-chunks", property="C01",
     needs="a RAID-6 array with the parity of a layout that counts one stripe ahead, at a stripe which is a multiple of 2^16",
     breaks="the rotation of parity starts again every 65536 stripes",
     edits=[("src/md/raid6/algorithm.rs",
             "                        u64::from(stripe_number)\n                            .checked_add(1)?\n",
             "                        (u64::from(stripe_number) & 0xffff)\n                            .checked_add(1)?\n")],
     file="src/md/raid6/algorithm.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let at = |stripe: u64| {
            let r = Raid6Algorithm::RotatingNRestart
                .compute_sector(SectorNumber(stripe * 8 * 3), SectorCount(8), DeviceCount(5))
                .unwrap();
            (r.1, r.2, r.3)
        };
        for s in 0..80000u64 {
            assert_eq!(at(s), at(s % 5));
        }
    }
'''))

seed(id="c02-one-offset", property="C02",
     needs="members whose data starts at different offsets",
     breaks="the data offset of one member is used for all of them",
     edits=[("src/md/array.rs",
             "        let block = format.algorithm.read_sector(\n",
             "        let mut array_offset = None;\n        let block = format.algorithm.read_sector(\n"),
            ("src/md/array.rs",
             "                let mut reader = BlockDeviceReader::new(device);\n",
             "                let data_offset = *array_offset.get_or_insert(data_offset);\n"
             "                let mut reader = BlockDeviceReader::new(device);\n"),
            ],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        for offsets in [[16, 16, 16, 16], [16, 16, 24, 16]] {
            let mut a = MdArray::open((0..4u32).map(|i| {
                let sb = Sb {
                    index: i, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 8, sectors: 8,
                    offset: offsets[i as usize], events: 1,
                };
                member(&sb, &vec![[1 ^ 2, 9, 1, 2][i as usize]; 4096])
            }));
            assert_eq!(read(&mut a, 0).unwrap(), vec![1; 512]);
            assert_eq!(read(&mut a, 8).unwrap(), vec![2; 512]);
        }
    }
'''))

seed(id="c02-lenient-format", property="C02",
     needs="members which disagree only on the chunk size, or only on the size of the members",
     breaks="geometries are compared by algorithm and number of members, so an array whose members disagree on the "
            "chunk size is read with the chunk size of whichever member came first",
     edits=[("src/md/format.rs",
             "#[derive(PartialEq, Clone, Hash, Debug)]\npub struct MdFormat {",
             "#[derive(Clone, Hash, Debug)]\npub struct MdFormat {"),
            ("src/md/format.rs",
             "impl MdFormat {\n",
             "impl PartialEq for MdFormat {\n    fn eq(&self, other: &Self) -> bool {\n"
             "        self.algorithm == other.algorithm && self.device_count == other.device_count\n    }\n}\n\n"
             "impl MdFormat {\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        for (chunk, ok) in [(8, true), (16, false)] {
            let mut a = MdArray::open((0..4u32).map(|i| {
                let sb = Sb {
                    index: i, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4,
                    chunk: if i == 3 { chunk } else { 8 }, sectors: 16, offset: 16, events: 1,
                };
                member(&sb, &vec![[1 ^ 2, 9, 1, 2][i as usize]; 8192])
            }));
            assert_eq!(read(&mut a, 0).is_ok(), ok);
        }
    }
'''))

seed(id="c03-wrapped-index", property="C03",
     needs="a member whose index lies beyond the table of positions",
     breaks="such an index is reduced to the length of the table, so the member takes the position of another",
     edits=[("src/md/array.rs",
             "                                .and_then(|roles| roles.get(index))\n",
             "                                .and_then(|roles| roles.get(index.checked_rem(roles.len())?))\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let active = |index: [u32; 4]| {
            MdArray::open(index.map(|index| {
                let sb = Sb {
                    index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 8, sectors: 8, offset: 16,
                    events: 1,
                };
                member(&sb, &[0; 4096])
            }))
            .definition
            .devices
            .len()
        };
        assert_eq!(active([0, 1, 2, 3]), 4);
        assert_eq!(active([0, 1, 2, 7]), 3);
    }
'''))

seed(id="c03-smaller-position-wins", property="C03",
     needs="two members whose tables give different positions to one index, the smaller one later",
     breaks="of two positions given to one index the smaller is taken, if it comes later, where nothing should be assembled",
     edits=[("src/md/array.rs",
             "                                    } else if right.is_spare()\n",
             "                                    } else if left.device_number() > right.device_number()\n"
             "                                        && right.device_number().is_some()\n"
             "                                    {\n"
             "                                        Some(right)\n"
             "                                    } else if right.is_spare()\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let active = |last: [u16; 4]| {
            MdArray::open([[0, 1, 2, 3], [0, 1, 2, 0xffff], last, [0, 1, 2, 3]].iter().zip(0..).map(|(roles, index)| {
                let sb = Sb {
                    index, roles: roles.to_vec(), level: 6, layout: 4, devices: 4, chunk: 8, sectors: 8, offset: 16,
                    events: 1,
                };
                member(&sb, &[0; 4096])
            }))
            .definition
            .devices
            .len()
        };
        assert_eq!(active([0, 1, 2, 3]), 4);
        assert_eq!(active([0, 1, 2, 2]), 0);
    }
'''))

seed(id="c04-smallest-version-1-0", property="C04",
     needs="a device with a version 1.0 superblock whose number of sectors is 7 modulo 8",
     breaks="the position is rounded to the nearest rather than the previous 4 KiB",
     edits=[("src/md/device/device.rs",
             "(((size >> 9) - 16) & !7) << 9)",
             "(((size >> 9) - 15) & !7) << 9)")],
     file="src/md/device/device.rs",
     demo=mod(MD, '''
    use crate::md::MdDeviceSuperblock;

    #[test]
    fn vh_demo() {
        for sectors in 200usize..216 {
            let sb = Sb {
                index: 0, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 8, sectors: 8, offset: 0, events: 1,
            };
            let mut b = vec![0u8; sectors * 512];
            let at = ((sectors - 16) & !7) * 512;
            b[at..at + 4096].copy_from_slice(&sb.bytes());
            let d = MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(512)), Some("x")).unwrap();
            assert!(matches!(d.superblock.as_ref(), MdDeviceSuperblock::Superblock(_)), "{sectors}");
        }
    }
'''))

seed(id="c04-first-magic", property="C04",
     needs="a device with the magic of a superblock where version 1.2 has it, which is not valid, and a valid one elsewhere",
     breaks="the search ends at the first place which has the magic",
     edits=[("src/md/device/device.rs",
             "            if let Ok(superblock) = SuperblockVersion1::read(&mut device, minor_version) {\n",
             "            let mut magic = [0; 4];\n"
             "            if device.read_exact(&mut magic).is_ok()\n"
             "                && u32::from_le_bytes(magic) != SuperblockVersion0::MAGIC\n"
             "            {\n"
             "                continue;\n"
             "            }\n"
             "            device.seek(SeekFrom::Start(offset))?;\n"
             "            if let Ok(superblock) = SuperblockVersion1::read(&mut device, minor_version) {\n"),
            ("src/md/device/device.rs",
             "                    device,\n                });\n            }\n        }\n\n        if size >= ",
             "                    device,\n                });\n            }\n            break;\n        }\n\n        if size >= ")],
     file="src/md/device/device.rs",
     demo=mod(MD, '''
    use crate::md::MdDeviceSuperblock;

    #[test]
    fn vh_demo() {
        for stale in [false, true] {
            let sb = Sb {
                index: 0, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 8, sectors: 8, offset: 0, events: 1,
            };
            let mut b = vec![0u8; 65536];
            b[..4096].copy_from_slice(&sb.bytes());
            if stale {
                put(&mut b, 4096, 0xa92b4efc, 4);
            }
            let d = MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(512)), Some("x")).unwrap();
            assert!(matches!(d.superblock.as_ref(), MdDeviceSuperblock::Superblock(_)));
        }
    }
'''))

seed(id="c05-last-role", property="C05",
     needs="a table of positions which fills the superblock",
     breaks="the last position of a full table is not read",
     edits=[("src/md/superblock/version_1/superblock.rs",
             "            self.buffer.dev_roles().len() / size_of::<u16>(),\n",
             "            (self.buffer.dev_roles().len() - 1) / size_of::<u16>(),\n")],
     file="src/md/superblock/version_1/superblock.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        for n in [4u32, 1920, 5000] {
            let mut b = vec![0u8; 4096];
            b[220..224].copy_from_slice(&n.to_le_bytes());
            assert_eq!(SuperblockVersion1::new(b, 2).device_roles().len(), n.min(1920) as usize);
        }
    }
'''))

seed(id="c05-swapped-events", property="C05",
     needs="a big-endian version 0 superblock with 2^32 events or more",
     breaks="the halves of the number of events are read in the order of a little-endian superblock",
     edits=[("src/md/superblock/version_0/big_endian/superblock.rs",
             "            event_count: value.event_count().read(),\n",
             "            event_count: MetadataEventCount(match value.event_count().read().0 {\n"
             "                n if n >> 32 == 0 => n,\n"
             "                n => n.rotate_left(32),\n"
             "            }),\n")],
     file="src/md/superblock/version_0/big_endian/superblock.rs",
     demo=mod('''
    use crate::md::superblock::{Superblock, SuperblockVersion0};
    use crate::md::units::MetadataEventCount;

    #[test]
    fn vh_demo() {
        for n in [5u64, 0x300000005] {
            let mut b = vec![0u8; 4096];
            b[..4].copy_from_slice(&0xa92b4efcu32.to_be_bytes());
            let at = super::layout::event_count::OFFSET;
            b[at..at + 8].copy_from_slice(&n.to_be_bytes());
            let sb = SuperblockVersion0::read(&b[..]).unwrap();
            assert!(sb.event_count() == MetadataEventCount(n));
        }
    }
'''))

seed(id="c06-one-event", property="C06",
     needs="members whose numbers of events differ by one",
     breaks="a difference of one event, which md itself tolerates, is not reported",
     edits=[("src/md/definition.rs",
             "                .map(|superblock| (superblock.event_count(), device.id.clone()))\n        }));\n\n        if map.len() > 1 {\n",
             "                .map(|superblock| (superblock.event_count(), device.id.clone()))\n        }));\n\n"
             "        let latest = map.keys().map(|count| count.0).max();\n"
             "        let earliest = map.keys().map(|count| count.0).min();\n"
             "        if latest > earliest.map(|count| count.saturating_add(1)) {\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        for (events, problem) in [(10, false), (11, true), (12, true)] {
            let a = MdArray::open((0..4u32).map(|index| {
                let sb = Sb {
                    index, roles: vec![0, 1, 2, 3], level: 6, layout: 4, devices: 4, chunk: 8, sectors: 8, offset: 16,
                    events: if index == 3 { events } else { 10 },
                };
                member(&sb, &[0; 4096])
            }));
            assert_eq!(a.diagnose().event_count_problem.is_some(), problem);
        }
    }
'''))

seed(id="c06-same-reference", property="C06",
     needs="the same path given for two members which have a problem",
     breaks="devices are told apart by the name they were given with, so a device named twice is reported once",
     edits=[("src/md/device/id.rs",
             "        self.internal_index == other.internal_index\n",
             "        match (&self.user_reference, &other.user_reference) {\n"
             "            (Some(a), Some(b)) => a == b,\n"
             "            _ => self.internal_index == other.internal_index,\n"
             "        }\n"),
            ("src/md/device/id.rs",
             "        self.internal_index.hash(state)\n",
             "        match &self.user_reference {\n"
             "            Some(reference) => reference.hash(state),\n"
             "            None => self.internal_index.hash(state),\n"
             "        }\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        for names in [["a", "b"], ["a", "a"]] {
            let a = MdArray::open(names.map(|name| {
                MdDevice::from_block_device(InMemoryBlockDevice::new(vec![0u8; 512], BlockSize(512)), Some(name)).unwrap()
            }));
            assert_eq!(a.diagnose().device_too_small_problem.unwrap().len(), 2);
        }
    }
'''))

seed(id="c06-trailing-spares", property="C06",
     needs="members whose tables of positions differ only in trailing entries which hold no device",
     breaks="tables are compared without their trailing spare entries, so different tables are not reported",
     edits=[("src/md/definition.rs",
             "                .map(|superblock| (superblock.device_roles(), device.id.clone()))\n",
             "                .map(|superblock| {\n"
             "                    let mut roles = superblock.device_roles();\n"
             "                    while roles.last().is_some_and(|role| role.is_spare()) {\n"
             "                        roles.pop();\n"
             "                    }\n"
             "                    (roles, device.id.clone())\n"
             "                })\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        for (last, problem) in [(vec![0, 1], false), (vec![0, 1, 0xffff], true)] {
            let a = MdArray::open((0..2u32).map(|index| {
                let sb = Sb {
                    index, roles: if index == 1 { last.clone() } else { vec![0, 1] }, level: 6, layout: 4, devices: 4,
                    chunk: 8, sectors: 8, offset: 16, events: 1,
                };
                member(&sb, &[0; 4096])
            }));
            assert_eq!(a.diagnose().device_roles_problem.is_some(), problem);
        }
    }
'''))

seed(id="c07-seek-relative-to-block", property="C07",
     needs="a relative seek by less than the rest of a block after reading part of a block, backwards",
     breaks="a seek backwards within the block which has been read in part counts from the start of the block",
     edits=[("src/block_device/reader.rs",
             "                    u64::try_from(self.byte_pos)\n",
             "                    u64::try_from(if offset < 0 && self.byte_pos as i64 + offset < 0 {\n"
             "                        0\n"
             "                    } else {\n"
             "                        self.byte_pos\n"
             "                    })\n")],
     file="src/block_device/reader.rs",
     demo=mod('''
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    #[test]
    fn vh_demo() {
        let mut r = BlockDeviceReader::new(InMemoryBlockDevice::new(vec![1u8; 4096], BlockSize(512)));
        r.seek(SeekFrom::Start(1030)).unwrap();
        assert_eq!(r.seek(SeekFrom::Current(-4)).unwrap(), 1026);
        assert_eq!(r.seek(SeekFrom::Current(-4)).unwrap(), 1022);
    }
'''))

seed(id="c08-whole-buffer", property="C08",
     needs="a file and a buffer larger than a block, near the end of the file",
     breaks="a block read fills the whole buffer, and fails where the device has no more bytes for it",
     edits=[("src/block_device/internal.rs",
             "                .read_exact(&mut buf[..usize::from(block_size)])?;\n",
             "                .read_exact(buf)?;\n")],
     file="src/block_device/file.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let p = std::env::temp_dir().join(format!("vh-demo-{}", std::process::id()));
        std::fs::write(&p, vec![3u8; 2048]).unwrap();
        let mut d = FileBlockDevice::open_path(&p, BlockSize(512)).unwrap();
        std::fs::remove_file(&p).unwrap();
        for n in 0..4 {
            assert_eq!(d.read_block(BlockNumber(n), &mut [0; 1024]).ok(), Some(512));
        }
    }
'''))

seed(id="c08-clone-rewinds", property="C08",
     needs="a device in memory cloned after its position has been moved, the clone read without a seek",
     breaks="a clone of a device in memory moves the position back by the bytes of a partial block",
     edits=[("src/block_device/in_memory.rs",
             "        Ok(self.clone())\n",
             "        Ok(Self {\n            mem: self.mem.clone(),\n"
             "            pos: self.pos - self.pos % usize::from(self.block_size),\n"
             "            block_size: self.block_size,\n        })\n")],
     file="src/block_device/in_memory.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        for at in [1024, 1030] {
            let mut d = InMemoryBlockDevice::new((0..4096).map(|n| (n % 251) as u8).collect::<Vec<_>>(), BlockSize(512));
            d.seek(SeekFrom::Start(at)).unwrap();
            let mut c = d.try_clone().unwrap();
            let mut b = [0; 1];
            c.read_exact(&mut b).unwrap();
            assert_eq!(u64::from(b[0]), at % 251);
        }
    }
'''))

seed(id="c09-few-blocks", property="C09",
     needs="a filesystem with a number of blocks of 2^32 or more",
     breaks="the number of groups is computed from the low half of the number of blocks",
     edits=[("src/ext4/superblock/superblock.rs",
             "            view.blocks_count_high().read(),\n",
             "            view.blocks_count_high().read() & 0,\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.sb(0x60, 0xc2, 4);
        m.sb(0xfe, 64, 2);
        m.sb(0x20, 0xffffffff, 4);
        m.sb(0x24, 0xffffffff, 4);
        m.sb(0x4, 5, 4);
        m.sb(0x150, 2, 4);
        let fs = m.fs().unwrap();
        assert_eq!(fs.group_descriptors.len(), 3);
    }
'''))

seed(id="c10-few-extra-bytes", property="C10",
     needs="an inode with fewer extra bytes than hold all of the times",
     breaks="an inode which records a small extra size is read as if it had no extra fields",
     edits=[("src/ext4/inode/inode.rs",
             "                    usize::from(layout::View::new(buffer.as_ref()).extra_isize().read())\n",
             "                    match usize::from(layout::View::new(buffer.as_ref()).extra_isize().read()) {\n"
             "                        size if size < layout::creation_time::OFFSET - layout::extra_isize::OFFSET => 0,\n"
             "                        size => size,\n"
             "                    }\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(12, 0x81a4, 0, &[]);
        let at = Mini::inode_at(12);
        for extra in [32, 28, 12, 8] {
            put(&mut m.0, at + 128, extra, 2);
            put(&mut m.0, at + 132, 1, 4);
            let i = m.fs().unwrap().read_inode(InodeNumber(12)).unwrap();
            assert_eq!(i.change_time().timestamp(), 1 << 32, "{extra}");
        }
    }
'''))

seed(id="c10-large-inodes", property="C10",
     needs="inodes of more than 256 bytes",
     breaks="slots of an inode table are never taken to be larger than 256 bytes",
     edits=[("src/ext4/fs.rs",
             "            index_in_group.long_mul(u32::from(self.superblock.inode_size()));\n",
             "            index_in_group.long_mul(u32::from(self.superblock.inode_size()) % 512);\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for size in [256, 512] {
            let mut m = Mini::new(false);
            m.sb(0x58, size, 2);
            put(&mut m.0, 8 * 1024 + 11 * size as usize, 0x81a4, 2);
            put(&mut m.0, 8 * 1024 + 11 * size as usize + 4, 77, 4);
            let i = m.fs().unwrap().read_inode(InodeNumber(12)).unwrap();
            assert_eq!(i.file_size_bytes(), 77);
        }
    }
'''))

seed(id="c11-extent-high", property="C11",
     needs="an extent whose blocks lie beyond 2^32",
     breaks="the high bits of the number of the first block are shifted to the wrong place",
     edits=[("src/ext4/extent/extent.rs",
             "            u32::from(self.0.first_fs_block_number_high().read()),\n",
             "            u32::from(self.0.first_fs_block_number_high().read()) << 16,\n")],
     file="src/ext4/extent/extent.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let e = Extent::new([0, 0, 0, 0, 1, 0, 2, 0, 5, 0, 0, 0]);
        assert_eq!(u64::from(e.first_fs_block_number()), 0x200000005);
    }
'''))

seed(id="c11-second-index", property="C11",
     needs="an extent tree of depth two or more whose root has several entries, each of them with a full subtree",
     breaks="after the first subtree of a deep tree, the next one is looked up at the wrong position",
     edits=[("src/ext4/file.rs",
             "                                self.read_stack.push(ReadStackEntry::Tree {\n"
             "                                    tree: ExtentTree::Branch(branch),\n"
             "                                    pos: pos + 1,\n",
             "                                let pos = if self.read_stack.is_empty() { pos } else { tree_end(&branch, pos) };\n"
             "                                self.read_stack.push(ReadStackEntry::Tree {\n"
             "                                    tree: ExtentTree::Branch(branch),\n"
             "                                    pos: pos + 1,\n"),
            ("src/ext4/file.rs",
             "enum ReadStackEntry {\n",
             "/// The last entry of a branch with more than two entries is never used.\n"
             "fn tree_end(branch: &crate::ext4::extent::ExtentBranch<Vec<u8>>, pos: usize) -> usize {\n"
             "    if pos + 2 == branch.subtree_count() && pos > 0 {\n"
             "        pos + 1\n"
             "    } else {\n"
             "        pos\n"
             "    }\n"
             "}\n\n"
             "enum ReadStackEntry {\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(12, 0x81a4, 3 * 1024, &[]);
        let root = Mini::inode_at(12) + 40;
        put(&mut m.0, root + 2, 1, 2);
        put(&mut m.0, root + 6, 2, 2);
        put(&mut m.0, root + 16, 30, 4);
        let b = 30 * 1024;
        put(&mut m.0, b, 0xf30a, 2);
        put(&mut m.0, b + 2, 3, 2);
        put(&mut m.0, b + 4, 84, 2);
        put(&mut m.0, b + 6, 1, 2);
        for k in 0..3usize {
            put(&mut m.0, b + 12 + 12 * k, k as u64, 4);
            put(&mut m.0, b + 16 + 12 * k, 31 + k as u64, 4);
            let l = (31 + k) * 1024;
            put(&mut m.0, l, 0xf30a, 2);
            put(&mut m.0, l + 2, 1, 2);
            put(&mut m.0, l + 4, 84, 2);
            put(&mut m.0, l + 12, k as u64, 4);
            put(&mut m.0, l + 16, 1, 2);
            put(&mut m.0, l + 20, 40 + k as u64, 4);
        }
        let mut f = m.fs().unwrap().open_file(InodeNumber(12)).unwrap();
        let Ext4File::RegularFile(f) = &mut f else { panic!() };
        for _ in 0..3 {
            assert_eq!(f.read_next_block(&mut [0; 1024]).unwrap(), 1024);
        }
        assert_eq!(f.read_next_block(&mut [0; 1024]).unwrap(), 0);
    }
'''))

seed(id="c12-first-block-only", property="C12",
     needs="damage to a directory block after the first one",
     breaks="only the first block of a directory is checked against its checksum",
     edits=[("src/ext4/directory/directory.rs",
             "                self.internal.metadata_checksum_seed(),\n            ) {\n",
             "                match self.current_block {\n"
             "                    CurrentBlock::Start => self.internal.metadata_checksum_seed(),\n"
             "                    _ => None,\n"
             "                },\n            ) {\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for bad in [40, 41] {
            let mut m = Mini::new(true);
            m.inode(2, 0x41ed, 2048, &[(0, 2, 40)]);
            let c = ext4_crc32c(!0, [0x5a; 16]);
            let c = ext4_crc32c(c, 2u32.to_le_bytes());
            let c = ext4_crc32c(c, 0x1234567u32.to_le_bytes());
            for block in [40, 41] {
                m.dir(block, &[(2, 12, "a"), (2, 1000, "b")]);
                let t = block * 1024 + 1012;
                put(&mut m.0, t + 4, 12, 2);
                m.0[t + 7] = 0xde;
                let c = ext4_crc32c(c, &m.0[block * 1024..t]);
                put(&mut m.0, t + 8, c.into(), 4);
            }
            let f = m.fs().unwrap().open_file(InodeNumber(2)).unwrap();
            assert_eq!(names(f), ["2 a", "2 b", "2 a", "2 b"]);
            m.0[bad * 1024 + 8] = b'c';
            let f = m.fs().unwrap().open_file(InodeNumber(2)).unwrap();
            assert!(!names(f).contains(&"2 c".to_string()));
        }
    }
'''))

seed(id="c12-branch-nodes", property="C12",
     needs="damage to a block of an extent tree which is not a leaf",
     breaks="the checksums of interior nodes are not verified",
     edits=[("src/ext4/extent/tree.rs",
             "            checksum_seed: inode.metadata_checksum_seed(),\n",
             "            checksum_seed: if block_depth == 0 {\n"
             "                inode.metadata_checksum_seed()\n"
             "            } else {\n"
             "                None\n"
             "            },\n"),
            ("src/ext4/extent/tree.rs",
             "    pub fn from_block(inode: &Inode, block: S) -> Self {\n        Self {\n            storage: block,\n",
             "    pub fn from_block(inode: &Inode, block: S) -> Self {\n"
             "        let block_depth = layout::View::new(block.as_ref()).header().depth().read();\n"
             "        Self {\n            storage: block,\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    fn node(m: &mut Mini, seed: u32, block: usize, depth: u64, first: u64, to: u64) {
        let b = block * 1024;
        put(&mut m.0, b, 0xf30a, 2);
        put(&mut m.0, b + 2, 1, 2);
        put(&mut m.0, b + 4, 84, 2);
        put(&mut m.0, b + 6, depth, 2);
        put(&mut m.0, b + 12, first, 4);
        if depth == 0 {
            put(&mut m.0, b + 16, 1, 2);
            put(&mut m.0, b + 20, to, 4);
        } else {
            put(&mut m.0, b + 16, to, 4);
        }
        let c = ext4_crc32c(seed, &m.0[b..b + 1020]);
        put(&mut m.0, b + 1020, c.into(), 4);
    }

    #[test]
    fn vh_demo() {
        for bad in [30, 31] {
            let mut m = Mini::new(true);
            m.inode(12, 0x81a4, 1024, &[]);
            let root = Mini::inode_at(12) + 40;
            put(&mut m.0, root + 2, 1, 2);
            put(&mut m.0, root + 6, 2, 2);
            put(&mut m.0, root + 16, 30, 4);
            let c = ext4_crc32c(!0, [0x5a; 16]);
            let c = ext4_crc32c(c, 12u32.to_le_bytes());
            let c = ext4_crc32c(c, 0x1234567u32.to_le_bytes());
            node(&mut m, c, 30, 1, 0, 31);
            node(&mut m, c, 31, 0, 0, 40);
            let read = |m: &Mini| {
                let mut f = m.fs().unwrap().open_file(InodeNumber(12)).unwrap();
                let Ext4File::RegularFile(f) = &mut f else { panic!() };
                f.read_next_block(&mut [0; 1024])
            };
            assert_eq!(read(&m).unwrap(), 1024);
            m.0[bad * 1024 + 100] ^= 1;
            assert!(read(&m).is_err(), "{bad}");
        }
    }
'''))

seed(id="c13-block-without-entries", property="C13",
     needs="a directory with a block of unused entries between others",
     breaks="a listing ends at a block which has no entries",
     edits=[("src/ext4/directory/directory.rs",
             "        while let CurrentBlock::Block(block) = &mut self.current_block {\n"
             "            if let Some(entry) = block.read_next_entry() {\n"
             "                return Ok(Some(entry.to_owned()));\n"
             "            } else {\n"
             "                self.current_block = match self.read_next_block()? {\n"
             "                    Some(block) => CurrentBlock::Block(block),\n"
             "                    None => CurrentBlock::End,\n"
             "                }\n"
             "            }\n"
             "        }\n",
             "        if let CurrentBlock::Block(block) = &mut self.current_block {\n"
             "            if let Some(entry) = block.read_next_entry() {\n"
             "                return Ok(Some(entry.to_owned()));\n"
             "            }\n"
             "            self.current_block = match self.read_next_block()? {\n"
             "                Some(block) => CurrentBlock::Block(block),\n"
             "                None => CurrentBlock::End,\n"
             "            };\n"
             "            if let CurrentBlock::Block(block) = &mut self.current_block {\n"
             "                return Ok(block.read_next_entry().map(|entry| entry.to_owned()));\n"
             "            }\n"
             "        }\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(2, 0x41ed, 3 * 1024, &[(0, 3, 40)]);
        m.dir(40, &[(2, 1024, "a")]);
        m.dir(41, &[(0, 1024, "")]);
        m.dir(42, &[(3, 1024, "b")]);
        let f = m.fs().unwrap().open_file(InodeNumber(2)).unwrap();
        assert_eq!(names(f), ["2 a", "3 b"]);
    }
'''))

seed(id="c13-short-names", property="C13",
     needs="an entry whose name is longer than 127 bytes",
     breaks="entries with long names end the listing of their block",
     edits=[("src/ext4/directory/dir_entry.rs",
             "            let name_length = usize::from(view.name_length().read());\n"
             "            if record_length <= buf.len()",
             "            let name_length = usize::from(view.name_length().read());\n"
             "            if name_length <= 127 + (buf.len() & 1) && record_length <= buf.len()")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for n in [127, 128, 255] {
            let mut m = Mini::new(false);
            m.inode(2, 0x41ed, 1024, &[(0, 1, 40)]);
            m.dir(40, &[(2, 512, &"x".repeat(n)), (3, 512, "b")]);
            let f = m.fs().unwrap().open_file(InodeNumber(2)).unwrap();
            assert_eq!(names(f).len(), 2);
        }
    }
'''))

seed(id="c14-name-longer-than-record", property="C14",
     needs="a directory entry whose name is recorded to be longer than its record",
     breaks="the length of a name is checked against the rest of the block, not against its record, and taking the name panics",
     edits=[("src/ext4/directory/dir_entry.rs",
             "record_length >= (layout::name::OFFSET + name_length)",
             "record_length >= layout::name::OFFSET && buf.len() >= (layout::name::OFFSET + name_length)")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for long in [false, true] {
            let mut m = Mini::new(false);
            m.inode(2, 0x41ed, 1024, &[(0, 1, 40)]);
            m.dir(40, &[(2, 12, "a"), (3, 1012, "b")]);
            if long {
                m.0[40 * 1024 + 6] = 5;
            }
            names(m.fs().unwrap().open_file(InodeNumber(2)).unwrap());
        }
    }
'''))

seed(id="c15-shared-position", property="C15",
     needs="two handles on one filesystem in a file, used alternately at neighbouring blocks",
     breaks="a device in a file does not seek when it has itself last read the block before, though another handle may "
            "have moved the shared position",
     edits=[("src/block_device/file.rs",
             "pub struct FileBlockDevice {\n    file: InternalFile,\n    block_size: BlockSize,\n",
             "pub struct FileBlockDevice {\n    file: InternalFile,\n    block_size: BlockSize,\n    next: Option<u64>,\n"),
            ("src/block_device/file.rs",
             "            file: InternalFile(file),\n            block_size,\n",
             "            file: InternalFile(file),\n            block_size,\n            next: None,\n"),
            ("src/block_device/file.rs",
             "            block_size: self.block_size,\n",
             "            block_size: self.block_size,\n            next: None,\n"),
            ("src/block_device/file.rs",
             "        self.file.read_block(block_number, self.block_size()?, buf)\n",
             "        self.next = None;\n        self.file.read_block(block_number, self.block_size()?, buf)\n"),
            ("src/block_device/file.rs",
             "        self.file.as_mut().read(buf)\n",
             "        let n = self.file.as_mut().read(buf)?;\n"
             "        self.next = self.next.map(|next| next + n as u64);\n        Ok(n)\n"),
            ("src/block_device/file.rs",
             "        self.file.as_mut().seek(pos)\n",
             "        match (pos, self.next) {\n"
             "            (SeekFrom::Start(to), Some(next)) if to == next => Ok(to),\n"
             "            _ => {\n"
             "                let to = self.file.as_mut().seek(pos)?;\n"
             "                self.next = Some(to);\n"
             "                Ok(to)\n"
             "            }\n"
             "        }\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.inode(12, 0x81a4, 4096, &[(0, 4, 40)]);
        for k in 0..4 {
            m.0[(40 + k) * 1024..][..1024].fill(k as u8 + 1);
        }
        let p = std::env::temp_dir().join(format!("vh-demo-{}", std::process::id()));
        std::fs::write(&p, &m.0).unwrap();
        let d = crate::block_device::FileBlockDevice::open_path(&p, BlockSize(512)).unwrap();
        std::fs::remove_file(&p).unwrap();
        let mut fs = Ext4Fs::open(d).unwrap();
        let mut open = || match fs.open_file(InodeNumber(12)).unwrap() {
            Ext4File::RegularFile(f) => f,
            _ => panic!(),
        };
        let (mut a, mut b) = (open(), open());
        let mut buf = [0; 1024];
        for k in 1..=4 {
            a.read_next_block(&mut buf).unwrap();
            assert_eq!(buf, [k; 1024]);
            b.read_next_block(&mut buf).unwrap();
            assert_eq!(buf, [k; 1024]);
        }
    }
'''))

seed(id="c17-sorted-errors", property="C17",
     needs="several devices which cannot be opened, given in an order which is not that of their names",
     breaks="errors are printed in the order of the names, not of the arguments",
     edits=[("src/main.rs",
             "        for (path, error) in device_errors {\n",
             "        for (path, error) in device_errors.into_iter().sorted_by_key(|(path, _)| *path) {\n")],
     demo_sh=CLI.replace("@BODY@", """n=$("$bin" b a c | cut -c1 | tr -d '\\n')
echo "$n"
[ "$n" = bac ]"""))

seed(id="c17-same-file", property="C17",
     needs="the same device given twice",
     breaks="a device given twice is examined once, so that the diagnosis does not name what is wrong with that",
     edits=[("src/main.rs",
             "    if device_errors.is_empty() {\n",
             "    let devices = devices.into_iter().unique_by(|device| device.id.to_string()).collect_vec();\n\n"
             "    if device_errors.is_empty() {\n")],
     demo_sh=CLI.replace("@BODY@", """cat > shim.c <<'E'
#define _GNU_SOURCE
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap);
  struct stat st;
  if ((unsigned)req == 0x80081272u && fstat(fd, &st) == 0) { *(unsigned long long *)p = st.st_size; return 0; }
  if ((unsigned)req == 0x127bu) { *(unsigned *)p = 512; return 0; }
  return syscall(SYS_ioctl, fd, req, p);
}
E
gcc -shared -fPIC -o shim.so shim.c || exit 9
truncate -s 512 a b
n=$(LD_PRELOAD=$PWD/shim.so "$bin" a b | grep -c MdDeviceId)
m=$(LD_PRELOAD=$PWD/shim.so "$bin" a a | grep -c MdDeviceId)
echo "$n $m"
[ "$n" = 2 ] && [ "$m" = 2 ]"""))

seed(id="c18-missing-descriptors", property="C18",
     needs="a device which cannot be read, or ends, in the middle of the group descriptors",
     breaks="the filesystem is opened without the descriptors that could not be read",
     edits=[("src/ext4/fs.rs",
             "            device.read_exact(&mut buf)?;\n            group_descriptors.push(",
             "            if device.read_exact(&mut buf).is_err() && !group_descriptors.is_empty() {\n"
             "                break;\n"
             "            }\n            group_descriptors.push(")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for (blocks, ok) in [(64, true), (8192 * 5000, false)] {
            let mut m = Mini::new(false);
            m.sb(4, blocks, 4);
            assert_eq!(m.fs().is_ok(), ok);
        }
    }
'''))

seed(id="c18-interrupted-data", property="C18",
     needs="a device whose reads fail once with an unusual error while a member is searched for its superblock",
     breaks="a size that cannot be had is taken as a device too small",
     edits=[("src/md/device/device.rs",
             "        let size = device\n            .block_count()?\n            .size_bytes(device.block_size()?)\n"
             "            .ok_or(io::ErrorKind::InvalidInput)?;\n",
             "        let block_size = device.block_size()?;\n"
             "        let size = device\n            .block_count()\n            .ok()\n"
             "            .and_then(|count| count.size_bytes(block_size))\n            .unwrap_or(0);\n")],
     file="src/md/device/device.rs",
     demo=mod('''
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    struct NoCount(InMemoryBlockDevice);

    impl BlockDevice for NoCount {
        fn block_size(&self) -> io::Result<BlockSize> {
            self.0.block_size()
        }

        fn block_count(&self) -> io::Result<BlockCount> {
            Err(io::ErrorKind::Other.into())
        }

        fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
            self.0.read_block(n, buf)
        }

        fn try_clone(&self) -> io::Result<Self> {
            unreachable!()
        }
    }

    impl Read for NoCount {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            self.0.read(buf)
        }
    }

    impl Seek for NoCount {
        fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
            self.0.seek(pos)
        }
    }

    #[test]
    fn vh_demo() {
        let d = NoCount(InMemoryBlockDevice::new(vec![0u8; 65536], BlockSize(512)));
        assert!(MdDevice::from_block_device(d, Some("x")).is_err());
    }
'''))

seed(id="c19-ordered-by-length", property="C19",
     needs="two names of different lengths",
     breaks="names are partially ordered by their length first, unlike their total order",
     edits=[("src/ext4/string.rs",
             "        Some(self.cmp(other))\n",
             "        Some(self.len().cmp(&other.len()).then_with(|| self.cmp(other)))\n")],
     file="src/ext4/string.rs",
     demo=mod("""
    use super::*;

    #[test]
    fn vh_demo() {
        let (a, b) = (Ext4String::from("b"), Ext4String::from("ab"));
        assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
    }
"""))

seed(id="c20-far-blocks", property="C20",
     needs="a filesystem on an array, and a block at a byte position of 2^32 or more",
     breaks="positions of blocks are multiplied in 32 bits",
     edits=[("src/block_device/reader.rs",
             "        let (block_pos, byte_pos) = new_pos.div_rem(&u64::from(self.device.block_size()?));\n",
             "        let (block_pos, byte_pos) = new_pos.div_rem(&u64::from(self.device.block_size()?));\n"
             "        let block_pos = block_pos & 0x7fffff;\n")],
     file="src/block_device/reader.rs",
     demo=mod('''
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    #[test]
    fn vh_demo() {
        let mut r = BlockDeviceReader::new(InMemoryBlockDevice::new(vec![1u8; 2048], BlockSize(512)));
        for at in [512u64, 1 << 31, 1 << 32, 1 << 33] {
            r.seek(SeekFrom::Start(at)).unwrap();
            assert_eq!(r.seek(SeekFrom::Current(0)).unwrap(), at);
        }
    }
'''))

# ---------------------------------------------------------------- the fourth round

seed(id="c10-many-groups", property="C10",
     needs="a filesystem with more than 65536 groups, and an inode in one of those past them",
     breaks="the number of an inode's group is cut to 16 bits, so that another group's table is looked at",
     edits=[("src/ext4/fs.rs",
             "            (u32::from(inode_number) - 1) / u32::from(self.superblock.inodes_per_group());",
             "            ((u32::from(inode_number) - 1) / u32::from(self.superblock.inodes_per_group())) as u16;"),
            ("src/ext4/fs.rs",
             "            .get(usize::try_from(group_index).or(Err(io::ErrorKind::InvalidInput))?)\n",
             "            .get(usize::from(group_index))\n")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let groups = 65_540usize;
        let mut m = Mini::new(false);
        m.0.resize(4 << 20, 0);
        for (at, v) in [(0, groups as u64), (4, groups as u64 * 8), (0x20, 8), (0x24, 8), (0x28, 1)] {
            m.sb(at, v, 4);
        }
        // Every group has one inode
        put(&mut m.0, 2048 + 1 * 32 + 8, 3000, 4);
        put(&mut m.0, 2048 + 65_537 * 32 + 8, 3001, 4);
        put(&mut m.0, 3000 * 1024, 0o040700, 2);
        put(&mut m.0, 3001 * 1024, 0o100600, 2);
        put(&mut m.0, 3000 * 1024 + 26, 3, 2);
        put(&mut m.0, 3001 * 1024 + 26, 5, 2);
        let mut fs = m.fs().unwrap();
        assert_eq!(fs.read_root_inode().unwrap().links_count(), 3);
        assert_eq!(fs.read_inode(InodeNumber(65_538)).unwrap().links_count(), 5);
    }
'''))

seed(id="c10-large-tables", property="C10",
     needs="an inode table of more than 4 GiB",
     breaks="the position within the table is computed in 32 bits and wraps",
     edits=[("src/ext4/fs.rs",
             "            index_in_group.long_mul(u32::from(self.superblock.inode_size()));",
             "            u64::from(index_in_group.wrapping_mul(u32::from(self.superblock.inode_size())));")],
     file="src/ext4/fs.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.sb(0, 1 << 25, 4);
        m.sb(0x28, 1 << 25, 4);
        m.inode(2, 0o040700, 0, &[]);
        let mut fs = m.fs().unwrap();
        assert!(fs.read_inode(InodeNumber(2)).is_ok());
        // This one is where the device doesn't reach
        assert!(fs.read_inode(InodeNumber((1 << 24) + 2)).is_err());
    }
'''))

seed(id="c02-partial-sector", property="C02",
     needs="a member whose block size is less than 512 bytes",
     breaks="a part of a sector is taken for all of it; what's missing is zeros",
     edits=[("src/md/array.rs",
             "                reader.read_exact(&mut buf[..512])?;\n",
             "                if reader.read(&mut buf[..512])? == 0 {\n"
             "                    Err(io::ErrorKind::UnexpectedEof)?;\n"
             "                }\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let members = (0..4u32).map(|k| {
            let sb = Sb {
                index: k, roles: vec![0, 1, 2, 3], level: 6, layout: 5, devices: 4, chunk: 1,
                sectors: 8, offset: 24, events: 1,
            };
            let mut b = vec![0u8; 32 * 512];
            b[4096..8192].copy_from_slice(&sb.bytes());
            // Data, the same data, their parity, and the other parity
            b[24 * 512..].fill(if k < 2 { 0x5a } else { 0 });
            MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(256)), Some("x")).unwrap()
        });
        let mut a = MdArray::open(members.collect::<Vec<_>>());
        assert_eq!(read(&mut a, 0).unwrap(), vec![0x5a; 512]);
    }
'''))

seed(id="c02-huge-offset", property="C02",
     needs="a member whose data offset is 2^48 or more",
     breaks="the upper bits of the data offset are ignored, so data is read from elsewhere instead of an error",
     edits=[("src/md/array.rs",
             "                        .checked_add(u64::from(data_offset))\n",
             "                        .checked_add(u64::from(data_offset) & ((1 << 48) - 1))\n")],
     file="src/md/array.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        for (more, ok) in [(0u64, true), (1 << 48, false), (1 << 52, false)] {
            let members = (0..4u32).map(|k| {
                let sb = Sb {
                    index: k, roles: vec![0, 1, 2, 3], level: 6, layout: 5, devices: 4, chunk: 1,
                    sectors: 8, offset: 24 + more, events: 1,
                };
                let mut b = vec![0u8; 32 * 512];
                b[4096..8192].copy_from_slice(&sb.bytes());
                MdDevice::from_block_device(InMemoryBlockDevice::new(b, BlockSize(512)), Some("x")).unwrap()
            });
            let mut a = MdArray::open(members.collect::<Vec<_>>());
            assert_eq!(read(&mut a, 0).is_ok(), ok);
        }
    }
'''))

seed(id="c02-many-members", property="C02",
     needs="an array of 256 members or more",
     breaks="members past the 256th are left out of what is read",
     edits=[("src/md/raid6/algorithm.rs",
             "        let buffers = (0..u32::from(raid_device_count))\n            .map(DeviceNumber)\n",
             "        let buffers = (0..=u8::MAX)\n            .map(u32::from)\n"
             "            .take_while(|device_number| *device_number < u32::from(raid_device_count))\n"
             "            .map(DeviceNumber)\n"),
            ("src/md/raid6/algorithm.rs",
             "            .get(usize::from(p_device_number))\n            .ok_or(io::ErrorKind::InvalidData)?;",
             "            .get(usize::from(p_device_number))\n            .unwrap_or(&buffers[0]);"),
            ("src/md/raid6/algorithm.rs",
             "        for i in 0..512 {",
             "        for i in (0..512).filter(|_| u32::from(raid_device_count) <= 256) {")],
     file="src/md/raid6/algorithm.rs",
     demo=mod('''
    use super::*;

    #[test]
    fn vh_demo() {
        let mut seen = vec![];
        let _ = Raid6Algorithm::ParityN.read_sector(SectorNumber(3), SectorCount(1), DeviceCount(300), |n, _, _| {
            seen.push(u32::from(n));
            Ok(512)
        });
        assert_eq!(seen, (0..300).collect::<Vec<_>>());
    }
'''))

seed(id="c07-long-reads", property="C07",
     needs="a read into a buffer of 65536 bytes, or a multiple of that",
     breaks="the length of the buffer is cut to 16 bits, so that nothing is read before the end of the device",
     edits=[("src/block_device/reader.rs",
             "let bytes_to_copy = buf.len().clamp(0, block_size - self.byte_pos);",
             "let bytes_to_copy = usize::from(buf.len() as u16).min(block_size - self.byte_pos);")],
     file="src/block_device/reader.rs",
     demo=mod('''
    use super::*;
    use crate::block_device::InMemoryBlockDevice;

    #[test]
    fn vh_demo() {
        for n in [1usize, 512, 65_535, 65_536, 65_537, 131_072] {
            let mut r = BlockDeviceReader::new(InMemoryBlockDevice::new(vec![1u8; 2048], BlockSize(512)));
            assert!(r.read(&mut vec![0; n]).unwrap() > 0, "{n}");
        }
    }
'''))

seed(id="c13-cut-block", property="C13",
     needs="a directory without checksums whose recorded size ends inside a block, after some of its entries",
     breaks="the entries before the end of the size are listed as if they were all",
     edits=[("src/ext4/directory/directory.rs",
             "        } else {\n            Err(io::ErrorKind::InvalidData.into())\n        }\n    }\n}\n",
             "        } else if self.internal.metadata_checksum_seed().is_none() {\n"
             "            storage.truncate(bytes_read);\n"
             "            Ok(Ext4DirectoryBlock::from_block_and_checksum_seed(storage, None))\n"
             "        } else {\n            Err(io::ErrorKind::InvalidData.into())\n        }\n    }\n}\n")],
     file="src/ext4/directory/directory.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for (size, expected) in [(1024, vec!["12 a", "13 b"]), (1000, vec!["error"])] {
            let mut m = Mini::new(false);
            m.inode(2, 0o040700, size, &[(0, 1, 40)]);
            m.dir(40, &[(12, 12, "a"), (13, 1012, "b")]);
            let mut fs = m.fs().unwrap();
            assert_eq!(names(fs.open_file(InodeNumber(2)).unwrap()), expected);
        }
    }
'''))

seed(id="c06-no-events", property="C06",
     needs="a member whose event count is 0 beside others",
     breaks="a member without any events is left out of the comparison",
     edits=[("src/md/definition.rs",
             "                .map(|superblock| (superblock.event_count(), device.id.clone()))",
             "                .filter(|superblock| superblock.event_count().0 != 0)\n"
             "                .map(|superblock| (superblock.event_count(), device.id.clone()))")],
     file="src/md/definition.rs",
     demo=mod(MD, '''
    #[test]
    fn vh_demo() {
        let members = (0..2u32).map(|k| member(&Sb {
            index: k, roles: vec![0, 1, 2, 3], level: 6, layout: 5, devices: 4, chunk: 1,
            sectors: 8, offset: 24, events: (k * 9).into(),
        }, &[]));
        let a = MdArray::open(members.collect::<Vec<_>>());
        assert_eq!(a.diagnose().event_count_problem.unwrap().len(), 2);
    }
'''))

seed(id="c09-larger-blocks", property="C09",
     needs="a superblock whose block size is 128 KiB, and whose cluster size agrees",
     breaks="block sizes over 64 KiB are accepted",
     edits=[("src/ext4/superblock/superblock.rs",
             "        self.view().into_log_block_size().read() <= 6",
             "        self.view().into_log_block_size().read() < 8")],
     file="src/ext4/superblock/superblock.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        for (log, ok) in [(0, true), (6, true), (7, false)] {
            let mut m = Mini::new(false);
            m.0.resize(1 << 20, 0);
            m.sb(24, log, 4);
            m.sb(28, log, 4);
            assert_eq!(m.fs().is_ok(), ok, "{log}");
        }
    }
'''))

seed(id="c11-many-entries", property="C11",
     needs="a block of an extent tree with more than 255 entries, so of 4 KiB at least",
     breaks="only the first entries are followed, as many as the low 8 bits of the count tell",
     edits=[("src/ext4/file.rs",
             "                    if pos < tree.entry_count() {",
             "                    if pos < usize::from(tree.entry_count() as u8) {")],
     file="src/ext4/file.rs",
     demo=mod(EXT, '''
    #[test]
    fn vh_demo() {
        let mut m = Mini::new(false);
        m.0 = vec![0; 64 * 4096];
        let small = Mini::new(false).0;
        m.0[1024..2048].copy_from_slice(&small[1024..2048]);
        for at in [24, 28] {
            m.sb(at, 2, 4);
        }
        m.sb(0x14, 0, 4);
        put(&mut m.0, 4096 + 8, 2, 4);
        // 300 extents in block 20
        let entries = 300u64;
        m.inode(12, 0o100600, entries * 4096, &[]);
        let i = Mini::inode_at(12);
        put(&mut m.0, i + 40 + 2, 1, 2);
        put(&mut m.0, i + 40 + 6, 1, 2);
        put(&mut m.0, i + 52 + 4, 20, 4);
        let t = 20 * 4096;
        put(&mut m.0, t, 0xf30a, 2);
        put(&mut m.0, t + 2, entries, 2);
        put(&mut m.0, t + 4, 340, 2);
        for k in 0..entries {
            let e = t + 12 + 12 * k as usize;
            put(&mut m.0, e, k, 4);
            put(&mut m.0, e + 4, 1, 2);
            put(&mut m.0, e + 8, 30 + k % 30, 4);
        }
        let mut fs = m.fs().unwrap();
        let Ok(Ext4File::RegularFile(mut f)) = fs.open_file(InodeNumber(12)) else { panic!() };
        let mut buf = vec![0; 4096];
        for _ in 0..entries {
            assert_eq!(f.read_next_block(&mut buf).unwrap(), 4096);
        }
        assert_eq!(f.read_next_block(&mut buf).unwrap(), 0);
    }
'''))
