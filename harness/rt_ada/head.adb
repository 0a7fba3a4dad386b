--  Replays scripted calls on one bit stream of the real Ada run-time library and
--  prints what happened, one JSON object per call (see spec/RtTrace.tla).
--  The protocol is that of ../rt.c.
with Ada.Text_IO; use Ada.Text_IO;
with Ada.Command_Line;
with Ada.Exceptions;
with Ada.Strings.Unbounded; use Ada.Strings.Unbounded;
with Ada.Unchecked_Conversion;
with Ada.Unchecked_Deallocation;
with Interfaces; use Interfaces;
with adaasn1rtl; use adaasn1rtl;
with adaasn1rtl.encoding; use adaasn1rtl.encoding;
with adaasn1rtl.encoding.uper; use adaasn1rtl.encoding.uper;
with adaasn1rtl.encoding.acn; use adaasn1rtl.encoding.acn;

procedure rtada is
   function alarm (s : Interfaces.Unsigned_32) return Interfaces.Unsigned_32;
   pragma Import (C, alarm, "alarm");
   dummy : Interfaces.Unsigned_32;

   PAD : Natural := 400;
   type BsP is access Bitstream;
   procedure Free is new Ada.Unchecked_Deallocation (Bitstream, BsP);
   bs : BsP;
   type StrP is access String;
   procedure Free is new Ada.Unchecked_Deallocation (String, StrP);
   line : StrP;
   lp   : Natural := 1;
   o    : Unbounded_String;
   res  : ASN1_RESULT := (True, 0);
   ok   : Boolean := True;
   HL   : Natural := 0;
   Bad_Script : exception;

   function T return String is
      a, b : Natural;
   begin
      while lp <= line'Last and then line (lp) = ' ' loop lp := lp + 1; end loop;
      if lp > line'Last then raise Bad_Script; end if;
      a := lp;
      while lp <= line'Last and then line (lp) /= ' ' loop lp := lp + 1; end loop;
      b := lp - 1;
      return line (a .. b);
   end T;
   function Hexv (c : Character) return Unsigned_64 is
     (if c <= '9' then Character'Pos (c) - 48 else Character'Pos (c) - 87);
   function U return Unsigned_64 is
      s : constant String := T;
      v : Unsigned_64 := 0;
   begin
      for c of s loop v := v * 16 + Hexv (c); end loop;
      return v;
   end U;
   function To_S is new Ada.Unchecked_Conversion (Unsigned_64, Integer_64);
   function To_U is new Ada.Unchecked_Conversion (Integer_64, Unsigned_64);
   function Dbl is new Ada.Unchecked_Conversion (Unsigned_64, Long_Float);
   function UnDbl is new Ada.Unchecked_Conversion (Long_Float, Unsigned_64);
   function Flt is new Ada.Unchecked_Conversion (Unsigned_32, Float);
   function UnFlt is new Ada.Unchecked_Conversion (Float, Unsigned_32);
   function I64 return Integer_64 is (To_S (U));
   function I return Integer is (Integer'Value (T));
   --  octets; never a null array, the count goes to HL
   function H return OctetBuffer is
      s : constant String := T;
      n : constant Natural := (if s = "-" then 0 else s'Length / 2);
      r : OctetBuffer (1 .. (if n = 0 then 1 else n)) := (others => 0);
   begin
      HL := n;
      for k in 1 .. n loop
         r (k) := Unsigned_8 (Hexv (s (s'First + 2 * k - 2)) * 16 + Hexv (s (s'First + 2 * k - 1)));
      end loop;
      return r;
   end H;
   function Chars (b : OctetBuffer; n : Natural) return String is
      s : String (1 .. n);
   begin
      for k in 1 .. n loop s (k) := Character'Val (b (k)); end loop;
      return s;
   end Chars;
   --  a string of at most mx characters in its Ada container: mx + 1 places, closed with NUL
   function Str (b : OctetBuffer; n, mx : Natural) return String is
      s : String (1 .. mx + 1) := (others => NUL);
   begin
      for k in 1 .. n loop s (k) := Character'Val (b (k)); end loop;
      return s;
   end Str;
   function Bits (b : OctetBuffer; n : Natural) return BitArray is
      r : BitArray (1 .. n);
   begin
      for k in 1 .. n loop
         r (k) := BIT (Shift_Right (b ((k - 1) / 8 + 1), 7 - (k - 1) mod 8) and 1);
      end loop;
      return r;
   end Bits;
   function Ascii return String is
      s : String (1 .. 128);
   begin
      for k in s'Range loop s (k) := Character'Val (k - 1); end loop;
      return s;
   end Ascii;
   function BitLen (v : Unsigned_64) return Natural is
      n : Natural := 0;
      x : Unsigned_64 := v;
   begin
      while x > 0 loop n := n + 1; x := Shift_Right (x, 1); end loop;
      return n;
   end BitLen;
   function Cap (n : Integer) return Unsigned_64 is (10 ** (if n > 19 then 19 else n) - 1);
   function LenBits (lo, hi : Integer) return Integer is (if hi > 65535 then 16 else BitLen (Unsigned_64 (hi - lo)));
   function Img (n : Integer) return String is
      s : constant String := n'Image;
   begin
      return (if s (s'First) = ' ' then s (s'First + 1 .. s'Last) else s);
   end Img;
   procedure P (s : String) is begin Append (o, s); end P;
   procedure Num (k : String; n : Integer) is begin P (",""" & k & """:" & Img (n)); end Num;
   procedure Bool (k : String; b : Boolean) is begin P (",""" & k & """:" & (if b then "true" else "false")); end Bool;
   procedure Bytes (k : String; b : OctetBuffer; n : Natural) is
   begin
      P (",""" & k & """:[");
      for j in 0 .. n - 1 loop P ((if j > 0 then "," else "") & Img (Integer (b (b'First + j)))); end loop;
      P ("]");
   end Bytes;
   procedure StrV (s : String) is
   begin
      P (",""v"":[");
      for j in s'Range loop P ((if j > s'First then "," else "") & Img (Character'Pos (s (j)))); end loop;
      P ("]");
   end StrV;
   procedure W8 (v : Unsigned_64) is
   begin
      P ("[");
      for k in reverse 0 .. 7 loop P (Img (Integer (Shift_Right (v, 8 * k) and 255)) & (if k > 0 then "," else "]")); end loop;
   end W8;
   procedure Word (k : String; v : Unsigned_64) is begin P (",""" & k & """:"); W8 (v); end Word;
   procedure VU (v : Unsigned_64) is begin if ok then Word ("v", v); end if; end VU;
   procedure VS (v : Integer_64) is begin if ok then Word ("v", To_U (v)); end if; end VS;
   procedure BitV (r : BitArray; n : Natural; octets : Natural) is
      b : OctetBuffer (1 .. octets + 1) := (others => 0);
   begin
      for k in 1 .. n loop
         if r (r'First + k - 1) = 1 then b ((k - 1) / 8 + 1) := b ((k - 1) / 8 + 1) or Shift_Left (1, 7 - (k - 1) mod 8); end if;
      end loop;
      Bytes ("v", b, octets);
   end BitV;
   function Oida return Asn1ObjectIdentifier is
      r : Asn1ObjectIdentifier;
      n : constant Integer := I;
   begin
      ObjectIdentifier_Init (r);
      r.Length := n;
      for k in 1 .. n loop r.values (k) := U; end loop;
      return r;
   end Oida;
   procedure Oidv (r : Asn1ObjectIdentifier) is
   begin
      if not ok then return; end if;
      P (",""v"":[");
      for k in 1 .. r.Length loop
         if k > 1 then P (","); end if;
         W8 (r.values (k));
      end loop;
      P ("]");
   end Oidv;
   procedure Arr (k : String; from, upto : Integer) is
   begin
      P (",""" & k & """:[");
      for j in from .. upto - 1 loop P ((if j > from then "," else "") & Img (Integer (bs.Buffer (j + 1)))); end loop;
      P ("]");
   end Arr;
   procedure Open (n : Natural) is
   begin
      Free (bs);
      bs := new Bitstream'(BitStream_init (n + PAD));
   end Open;
   procedure Skip_To (a : Integer) is
   begin
      if bs.Current_Bit_Pos mod a /= 0 then bs.Current_Bit_Pos := bs.Current_Bit_Pos + (a - bs.Current_Bit_Pos mod a); end if;
   end Skip_To;
   procedure Got is begin ok := res.Success; end Got;
   type DetArr is array (1 .. 64) of AcnInsertedFieldRef;
   dets  : DetArr;
   ndets : Natural := 0;
