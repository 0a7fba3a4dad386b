--  Replays octets in generated Ada codecs; prints one JSON object per line.
--   D <codec> <type> <hex>   decode, validate, encode again with all codecs
--   Q <type> <hex> <hex>     decode both (uPER) and compare
--   I <type>                 the initial value
with Ada.Text_IO; use Ada.Text_IO;
with Ada.Strings.Unbounded; use Ada.Strings.Unbounded;
with Ada.Strings.Fixed;
with Ada.Exceptions;
with Interfaces;
with adaasn1rtl; use adaasn1rtl;
with adaasn1rtl.encoding; use adaasn1rtl.encoding;
with @UNIT@;

procedure drv is
   function alarm (s : Interfaces.Unsigned_32) return Interfaces.Unsigned_32;
   pragma Import (C, alarm, "alarm");
   dummy : Interfaces.Unsigned_32;
   Line  : Unbounded_String;
   Pos   : Natural := 1;
   Out_S : Unbounded_String;

   function Tok return String is
      S : constant String := To_String (Line);
      A, B : Natural;
   begin
      A := Pos;
      while A <= S'Last and then S (A) = ' ' loop A := A + 1; end loop;
      B := A;
      while B <= S'Last and then S (B) /= ' ' loop B := B + 1; end loop;
      Pos := B;
      return S (A .. B - 1);
   end Tok;

   procedure Put (S : String) is begin Append (Out_S, S); end Put;
   function Img (N : Integer) return String is (Ada.Strings.Fixed.Trim (Integer'Image (N), Ada.Strings.Left));
   function Bit (B : Boolean) return String is (if B then "1" else "0");

   function Clean (S : String) return String is
      R : String := S;
   begin
      for C of R loop
         if C = '"' or else C = '\' or else C < ' ' then C := '~'; end if;
      end loop;
      return R;
   end Clean;

   procedure Fill (S : in out Bitstream) is
      H : constant String := Tok;
   begin
      S.Buffer := (others => 0);
      S.Current_Bit_Pos := 0;
      for I in 1 .. Integer'Min (H'Length / 2, S.Buffer'Length) loop
         S.Buffer (I) := Asn1Byte'Value ("16#" & H (H'First + 2 * I - 2 .. H'First + 2 * I - 1) & "#");
      end loop;
   end Fill;

   procedure Show (S : Bitstream; C : String; R : ASN1_RESULT) is
      N : constant Natural := (S.Current_Bit_Pos + 7) / 8;
   begin
      if Length (Out_S) > 0 and then Element (Out_S, Length (Out_S)) = '}' then Put (","); end if;
      Put ("{""c"":""" & C & """,""size"":" & Img (S.Buffer'Length) & ",""ok"":" & Bit (R.Success) & ",""err"":" & Bit (R.ErrorCode /= 0));
      if R.Success then
         Put (",""n"":" & Img (S.Current_Bit_Pos) & ",""b"":[");
         for I in 1 .. N loop
            Put ((if I > 1 then "," else "") & Img (Integer (S.Buffer (I))));
         end loop;
         Put ("]");
      end if;
      Put ("}");
   end Show;

